"""Independent reference implementation (numpy/scipy) of the documented schemes.

ref_step(model, method, opts, dt, hist) gives the state a method's published
formula prescribes, where hist = [(t_n, y_n), (t_{n-1}, y_{n-1}), ...] is the
accepted history.  Nothing here is shared with the code under test.
"""
import numpy as np
import scipy.linalg as sl

ORDER = {"exprb2": 2, "exprb3": 3, "pexprb4": 4, "epi2": 2, "epi3": 3, "exprb2_dense": 2, "exprb2_pfd": 2, "exp_pfd": 1,
         "exp1": 1, "exp2": 2, "exp3": 3, "exp1_dense": 1, "exp2_dense": 2, "exp3_dense": 3,
         "epi2_leja_re": 2, "epi2_leja_im": 2, "epi3_leja_im": 3, "rk4": 4, "user": 2}
RB = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd"]
SPLIT = ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
LEJA = ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"]
RKM = ["rk4"]
ALL = RB + SPLIT + LEJA + RKM
MULTISTEP = {"epi3", "epi3_leja_im", "user"}
USER = ["user"]      # a two-step integrator of the harness on the public base class (models.user_integrator)
DENSE = {"exprb2_dense", "exprb2_pfd", "exp_pfd", "exp1_dense", "exp2_dense", "exp3_dense"}
KRYLOV = {"exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exp1", "exp2", "exp3"}
DIFFRAX = ["euler", "heun", "midpoint", "bosh3", "dopri5", "implicit_euler", "implicit_esdirk3", "implicit_esdirk4"]


def phi_exact(k, Z, v):
    n = len(v)
    if k == 0:
        return sl.expm(Z) @ v
    nv = np.linalg.norm(v)
    if nv == 0:
        return np.zeros(n)
    E = np.zeros((n + k, n + k))
    E[:n, :n] = Z
    E[:n, n] = v / nv
    for i in range(k - 1):
        E[n + i, n + i + 1] = 1.0
    return nv * sl.expm(E)[:n, -1]


def phi_mat(k, Z):
    n = Z.shape[0]
    E = np.zeros((n * (k + 1),) * 2)
    E[:n, :n] = Z
    for i in range(k):
        E[i * n:(i + 1) * n, (i + 1) * n:(i + 2) * n] = np.eye(n)
    return sl.expm(E)[:n, -n:]


def arnoldi(Z, v, m, iom):
    n = len(v)
    m = min(m, n)
    H = np.zeros((m + 1, m + 1))
    Q = np.zeros((n, m + 1))
    Q[:, 0] = v / np.linalg.norm(v)
    k = 0
    while k < m:
        w = Z @ Q[:, k]
        for i in range(max(k - iom, 0), k + 1):
            H[i, k] = w @ Q[:, i]
            w = w - H[i, k] * Q[:, i]
        nw = np.linalg.norm(w)
        H[k + 1, k] = nw
        k += 1
        if not nw > 1e-12:
            break
        if k < m:
            Q[:, k] = w / nw
    return Q[:, :k], H[:k, :k]


class Lin:
    """phi-vector products, exact or through the documented Krylov approximation"""

    def __init__(self, A, opts, krylov=True, jitter=0.0, rng=None):
        self.A, self.n = A, A.shape[0]
        self.m, self.iom = int(opts.get("max_krylov_dim", 100)), int(opts.get("iom", opts.get("_iom_default", 100)))
        self.krylov = krylov
        self.jit = jitter
        self.rng = rng

    def _v(self, v):
        if self.jit:
            return v * (1 + self.jit * self.rng.standard_normal(len(v)))
        return v

    def _prod(self, k, Z, v):
        if np.linalg.norm(v) == 0:
            return np.zeros_like(v)
        v = self._v(v)
        N = len(v)
        if not self.krylov or (self.m >= N and self.iom >= N):
            return phi_exact(k, Z, v)
        nv = np.linalg.norm(v)
        Q, H = arnoldi(Z, v / nv, self.m, self.iom)
        e1 = np.zeros(H.shape[0])
        e1[0] = 1.0
        return nv * (Q @ phi_exact(k, H, e1))

    def phi(self, k, h, v):
        return self._prod(k, h * self.A, v)

    def kiops(self, dt, vb):
        p, n = len(vb) - 1, self.n
        nb = max(np.linalg.norm(v) for v in vb)
        if nb == 0:
            return np.zeros(n)
        N = n + p
        Z = np.zeros((N, N))
        Z[:n, :n] = dt * self.A
        for j in range(p):
            Z[:n, n + j] = vb[p - j] / nb
        for j in range(p - 1):
            Z[n + j, n + j + 1] = 1.0
        v = np.zeros(N)
        v[:n] = vb[0] / nb
        v[-1] = 1.0
        return nb * self._prod(0, Z, v)[:n]


def ref_step(M, method, opts, dt, hist, jitter=0.0, rng=None):
    t, y = float(hist[0][0]), np.asarray(hist[0][1], float)
    z = np.zeros_like(y)
    if method == "rk4":
        f1 = M.f(t, y)
        f2 = M.f(t + dt / 2, y + f1 * dt / 2)
        f3 = M.f(t + dt / 2, y + f2 * dt / 2)
        f4 = M.f(t + dt, y + f3 * dt)
        return y + dt / 6 * (f1 + 2 * f2 + 2 * f3 + f4)
    if method == "user":                       # Adams-Bashforth 2 for varying steps, first step Euler
        f0 = M.f(t, y)
        if len(hist) < 2:
            return y + dt * f0
        h = t - float(hist[1][0])
        return y + dt * (f0 + 0.5 * dt / h * (f0 - M.f(float(hist[1][0]), np.asarray(hist[1][1], float))))
    if method in SPLIT:
        o = dict(opts)
        o.setdefault("iom", 200)
        L = M.l(t, y)
        lin = Lin(L, o, method in KRYLOV, jitter, rng)
        f0 = M.f(t, y)

        def R(tr, yr):
            return M.f(tr, yr) - f0 - L @ (yr - y)
        if method in ("exp1", "exp1_dense"):
            return y + lin.phi(1, dt, dt * f0)
        if method in ("exp2", "exp2_dense"):
            c2 = 1.0 if method == "exp2" else 2.0 / 3.0
            y2 = y + c2 * dt * lin.phi(1, c2 * dt, f0)
            r2 = R(t + c2 * dt, y2)
            return y + lin.phi(1, dt, dt * f0) + dt / c2 * lin.phi(2, dt, r2)
        c2 = c3 = 2.0 / 3.0
        y2 = y + c2 * dt * lin.phi(1, c2 * dt, f0)
        r2 = R(t + c2 * dt, y2)
        y3 = y + c3 * dt * lin.phi(1, c3 * dt, f0) + (4.0 / 9.0 / c2) * dt * lin.phi(2, c3 * dt, r2)
        r3 = R(t + c3 * dt, y3)
        return y + dt * lin.phi(1, dt, f0) + 1.5 * dt * lin.phi(2, dt, r3)
    # Rosenbrock type
    f0, J, ft = M.f(t, y), M.J(t, y), M.ft(t, y)
    lin = Lin(J, opts, method in KRYLOV, jitter, rng)
    tol = float(opts.get("tol_fdt", 1e-8))
    nonauto = tol >= 0 and np.abs(ft).max() > tol

    def R(tr, yr, v):
        return M.f(tr, yr) - f0 - J @ (yr - y) - v * (tr - t)
    if method == "exp_pfd":
        return lin.phi(0, dt, y)
    if method in ("exprb2", "exprb2_pfd"):
        r = y + lin.phi(1, dt, dt * f0)
        return r + dt * dt * lin.phi(2, dt, ft) if nonauto else r
    if method == "exprb2_dense":
        return y + dt * lin.phi(1, dt, f0) + dt * dt * lin.phi(2, dt, ft)
    if method in ("epi2", "epi2_leja_re", "epi2_leja_im") or (method == "epi3_leja_im" and len(hist) < 2):
        return y + lin.kiops(dt, [z, dt * f0, dt * dt * ft])
    if method in ("epi3", "epi3_leja_im") and len(hist) >= 2:
        tp, yp = float(hist[1][0]), np.asarray(hist[1][1], float)
        r = R(tp, yp, ft)
        return y + lin.kiops(dt, [z, dt * f0, dt * (2.0 / 3.0) * r + dt * dt * ft])
    v = ft if nonauto else z
    if method in ("exprb3", "epi3"):
        y2 = y + dt * lin.phi(1, dt, f0) + (dt * dt * lin.phi(2, dt, ft) if nonauto else 0.0)
        r2 = R(t + dt, y2, v)
        return y2 + 2.0 * dt * lin.phi(3, dt, r2)
    if method == "pexprb4":
        c = 0.5
        u2 = y + c * dt * lin.phi(1, c * dt, f0) + (c * c * dt * dt * lin.phi(2, c * dt, ft) if nonauto else 0.0)
        u3 = y + dt * lin.phi(1, dt, f0) + (dt * dt * lin.phi(2, dt, ft) if nonauto else 0.0)
        r2, r3 = R(t + c * dt, u2, v), R(t + dt, u3, v)
        return u3 + lin.kiops(dt, [z, z, z, dt * (16 * r2 - 2 * r3), dt * (-48 * r2 + 12 * r3)])
    raise KeyError(method)


def ref_tol(M, method, opts, dt, hist, y_ref):
    """(relative tolerance, scale) of the comparison, from the documented accuracy of the
    linear algebra and the measured sensitivity of the reference itself."""
    t, y = float(hist[0][0]), np.asarray(hist[0][1], float)
    f0 = M.f(t, y)
    scale = max(np.abs(y_ref).max(), np.abs(y).max(), abs(dt) * np.abs(f0).max(), 1e-290)
    nJ = abs(dt) * np.linalg.norm(M.J(t, y) if method not in SPLIT else M.l(t, y), 1)
    rt = 1e-10 * (1 + nJ)
    if method in ("exprb2", "exprb3", "pexprb4", "epi3", "exprb2_dense") or method in SPLIT:
        # phi_k, k > 0, uses a degree 4 Taylor polynomial of a matrix scaled to norm < 1/8
        rt += (5e-5 if method in DENSE else 2e-6) * (1 + nJ)
    rng = np.random.default_rng(12345)
    sens = 0.0
    for _ in range(2):
        yj = ref_step(M, method, opts, dt, hist, 1e-13, rng)
        sens = max(sens, np.abs(yj - y_ref).max())
    rt += 1e4 * sens / scale
    if getattr(M, "jac", "") == "fd" and method not in SPLIT and method not in ("rk4", "user"):
        fs = max(np.abs(f0).max() / max(np.abs(y).sum(), 1e-3 * float(getattr(M, "unit", 1.0))), 1.0)
        rt += 3e-6 * (1 + abs(dt)) * (1 + nJ) * fs * (1 + abs(t))
    if getattr(M, "jac", "") == "custom_fd" and method not in SPLIT and method not in ("rk4", "user"):
        rt += 1e-6 * (1 + abs(t)) * (1 + nJ) * max(1.0, abs(dt)) ** 2
    if method in LEJA:
        rt += 1e3 * float(opts.get("leja_tol", 1e-15)) * (1 + nJ) + 1e-9 * (1 + nJ)
    if method in ("exprb2_pfd", "exp_pfd"):
        rt += 1e-8 * (1 + nJ)
    return rt, scale
