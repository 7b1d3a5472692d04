"""Harness models (with seams at every evaluation) and numpy mirrors used by the oracles."""
import functools
import numpy as np
import jax, jax.numpy as jnp
import equinox as eqx
from ormatex_py.ode_sys import (OdeSys, OdeSplitSys, SysJacLinOp, LinOp, CustomJacLinOp, AdJacLinOp, FdJacLinOp, OdeSysNp,
                                MatrixLinOp)
from . import seams, transport

def traced(*xs):
    return any(isinstance(x, jax.core.Tracer) for x in xs)


def _host_tap(kind, x):
    """runs at every evaluation inside compiled code (inline, on the thread that runs that code)"""
    act = seams.SEAM.hit(kind, compiled=True)
    return seams.poison_np(act, x) if act else x


_HOST = {k: functools.partial(_host_tap, k) for k in seams.EVAL_KINDS}


@functools.partial(jax.custom_jvp, nondiff_argnums=(0,))
def tap(kind, x):
    """identity that is a seam also inside jit, loops and linearisations"""
    return jax.pure_callback(_HOST[kind], jax.ShapeDtypeStruct(x.shape, x.dtype), x, vmap_method="sequential")


@tap.defjvp
def _tap_jvp(kind, p, t):
    return tap(kind, p[0]), t[0]


class SeamJac(SysJacLinOp):
    """Wraps the package's Jacobian operator; every use outside compiled code is a
    seam, with `tap` those inside compiled code are too."""
    inner: SysJacLinOp
    tap: bool = eqx.field(static=True)

    def __init__(self, inner, tap=False):
        self._t, self._u, self._frhs, self._frhs_kwargs = inner._t, inner._u, inner._frhs, inner._frhs_kwargs
        self.inner = inner
        self.tap = tap

    def _matvec(self, v):
        if not traced(v, self._u):
            act = seams.SEAM.hit("matvec")
            r = self.inner._matvec(v)
            return seams.poison_array(act, r) if act else r
        return tap("matvec", self.inner._matvec(v)) if self.tap else self.inner._matvec(v)

    def _dense(self):
        if not traced(self._u):
            act = seams.SEAM.hit("dense")
            r = self.inner._dense()
            return seams.poison_array(act, r) if act else r
        return tap("dense", self.inner._dense()) if self.tap else self.inner._dense()

    def _fdt(self):
        if not traced(self._u):
            act = seams.SEAM.hit("fdt")
            r = self.inner._fdt()
            return seams.poison_array(act, r) if act else r
        return tap("fdt", self.inner._fdt()) if self.tap else self.inner._fdt()

    def _frhs_cached(self):
        if not traced(self._u):
            act = seams.SEAM.hit("frhs_cached")
            r = self.inner._frhs_cached()
            return seams.poison_array(act, r) if act else r
        return tap("frhs_cached", self.inner._frhs_cached()) if self.tap else self.inner._frhs_cached()


class SeamOp(LinOp):
    inner: LinOp
    tap: bool = eqx.field(static=True)

    def __init__(self, inner, tap=False):
        self.inner = inner
        self.tap = tap

    def _matvec(self, v):
        if not traced(v):
            act = seams.SEAM.hit("matvec")
            r = self.inner._matvec(v)
            return seams.poison_array(act, r) if act else r
        return tap("matvec", self.inner._matvec(v)) if self.tap else self.inner._matvec(v)

    def _dense(self):
        r = self.inner._dense()
        if not traced(r):
            act = seams.SEAM.hit("dense")
            return seams.poison_array(act, r) if act else r
        return r


class _Seamed:
    """Mixin: seams at the public evaluation entry points of a system."""

    def frhs(self, t, u, **kw):
        if traced(t, u):
            return tap("frhs", super().frhs(t, u, **kw)) if _tap(self) else super().frhs(t, u, **kw)
        act = seams.SEAM.hit("frhs", kw)
        r = super().frhs(t, u, **kw)
        return seams.poison_array(act, r) if act else r

    def fjac(self, t, u, **kw):
        if traced(t, u):
            return SeamJac(super().fjac(t, u, **kw), True) if _tap(self) else super().fjac(t, u, **kw)
        act = seams.SEAM.hit("fjac", kw)
        op = super().fjac(t, u, **kw)
        if act:
            op = poison_jac(act, op)
        return SeamJac(op, _tap(self))

    def fl(self, t, u, **kw):
        if traced(t, u):
            return super().fl(t, u, **kw)
        act = seams.SEAM.hit("fl", kw)
        op = super().fl(t, u, **kw)
        if act:
            m = seams.poison_array(act, op._dense())
            op = MatrixLinOp(m)
        return SeamOp(op, _tap(self))


def _tap(s):
    return getattr(s, "tap", False)


def poison_jac(act, op):
    """a Jacobian evaluation that returned non-finite matrix entries"""
    if isinstance(op, (CustomJacLinOp,)):
        m = seams.poison_array(act, op._f_du._dense())
        return eqx.tree_at(lambda o: o._f_du.a, op, m)
    n = op._u.shape[0]
    # automatic / finite-difference forms: replace by a poisoned dense Jacobian at the same point
    if isinstance(op, AdJacLinOp):
        m = op._dense()
    else:
        m = jax.vmap(op._matvec, in_axes=1, out_axes=1)(jnp.eye(n))
    m = seams.poison_array(act, m)
    return CustomJacLinOp(op._t, op._u, op._frhs, m, op._fdt(), frhs_kwargs=op._frhs_kwargs)


class QuadSys(_Seamed, OdeSplitSys):
    """u' = A u + nl * S ((B1 u)*(B2 u)) + g sin(w t) + c   (+ data * d, per-step data of the driver callbacks)"""
    A: jax.Array
    S: jax.Array
    B1: jax.Array
    B2: jax.Array
    L: jax.Array
    Lu: jax.Array
    g: jax.Array
    w: jax.Array
    c: jax.Array
    d: jax.Array
    nl: jax.Array
    E: jax.Array
    G: jax.Array
    gate: jax.Array
    jac: str = eqx.field(static=True)
    ldep: bool = eqx.field(static=True)
    tap: bool = eqx.field(static=True)

    def __init__(self, spec):
        a = quad_arrays(spec)
        for k in ("A", "S", "B1", "B2", "L", "Lu", "g", "w", "c", "d", "nl", "E", "G"):
            setattr(self, k, jnp.asarray(a[k]))
        self.gate = jnp.asarray(spec.get("gate", [0.0, 0.0]))
        self.tap = bool(spec.get("tap", False))
        self.jac = spec.get("jac", "custom")
        self.ldep = bool(spec.get("ldep", False))

    @jax.jit
    def _frhs(self, t, u, **kw):
        x = _data(kw)
        return self.A @ u + self.nl * (self.S @ ((self.B1 @ u) * (self.B2 @ u))) + self.g * self._gate(t, jnp.sin(self.w * t)) + self.c + x * (self.d + self.E @ u + self.G * jnp.sin(self.w * t))

    def _gate(self, t, v):
        """forcing that is switched on or off at some time"""
        on = jnp.where(self.gate[1] > 0, t > self.gate[0], t <= self.gate[0])
        return jnp.where((self.gate[1] == 0) | on, v, 0.0)

    @jax.jit
    def _jacmat(self, t, u, x=0.0):
        return self.A + x * self.E + self.nl * (self.S @ (jnp.diag(self.B2 @ u) @ self.B1 + jnp.diag(self.B1 @ u) @ self.B2))

    @jax.jit
    def _ftmat(self, t, u, x=0.0):
        c = self.w * jnp.cos(self.w * t)
        return self.g * self._gate(t, c) + x * self.G * c

    @jax.jit
    def _fjac(self, t, u, **kw):
        if self.jac == "ad":
            return AdJacLinOp(t, u, self.frhs, frhs_kwargs=kw)
        if self.jac == "fd":
            return FdJacLinOp(t, u, self.frhs, frhs_kwargs=kw)
        ft = self._ftmat(t, u, _data(kw)) if self.jac == "custom" else None
        return CustomJacLinOp(t, u, self.frhs, self._jacmat(t, u, _data(kw)), ft, frhs_kwargs=kw)

    @jax.jit
    def _fl(self, t, u, **kw):
        if self.ldep:
            return MatrixLinOp(self.L + jnp.diag(self.Lu * jnp.tanh(u)))
        return MatrixLinOp(self.L)


class PlainQuad(QuadSys):
    """the same system without seams: the package sees only its own operator types"""
    frhs, fjac, fl = OdeSplitSys.frhs, OdeSplitSys.fjac, OdeSplitSys.fl


def _data(kw):
    """per-step data travels as frhs_kwargs={'frhs_kwargs': {'x': value}}"""
    k = kw.get("frhs_kwargs", None)
    if isinstance(k, dict) and "x" in k:
        return k["x"]
    if "x" in kw:
        return kw["x"]
    return 0.0


def quad_arrays(spec):
    """Arrays of a QuadSys from its JSON spec (pure function of the spec)."""
    n, r = int(spec["n"]), np.random.RandomState(int(spec["seed"]) & 0x7FFFFFFF)
    kind = spec.get("kind", "stable")
    stiff = float(spec.get("stiff", 1.0))
    if kind == "closed":                       # closed linear network, column sums zero
        A = np.abs(r.rand(n, n)) * (r.rand(n, n) < 0.6)
        A *= np.exp(r.uniform(-2, 1, size=(n, n)))
        A[1 % n, 0] = max(A[1 % n, 0], 0.3)    # never the zero matrix
        np.fill_diagonal(A, 0.0)
        A -= np.diag(A.sum(0))
        A *= stiff
    elif kind == "rot":                        # damped rotations
        A = r.randn(n, n)
        A = stiff * ((A - A.T) * 0.7 - 0.3 * np.eye(n))
    elif kind == "symneg":                     # symmetric negative definite (real spectrum)
        Q, _ = np.linalg.qr(r.randn(n, n))
        A = -stiff * (Q * np.exp(r.uniform(-1.5, 1.5, n))) @ Q.T
    elif kind == "chain0":                     # closed linear decay chain
        lam = np.exp(r.uniform(-2, 1.5, n)) * stiff
        lam[-1] = 0.0
        A = -np.diag(lam)
        for i in range(n - 1):
            A[i + 1, i] = lam[i]
    elif kind == "chain":
        lam = np.exp(r.uniform(-2, 1.5, n)) * stiff
        A = -np.diag(lam)
        for i in range(n - 1):
            A[i + 1, i] = lam[i]
    elif kind == "block":                      # decoupled blocks: Krylov spaces break down early
        A = -stiff * np.eye(n) * 0.8
        for i in range(0, n - 1, 2):
            A[i, i + 1] = 0.4 * stiff
            A[i + 1, i] = -0.3 * stiff
    else:
        A = r.randn(n, n) * 0.5 * stiff - stiff * np.eye(n)
    B1, B2 = r.randn(n, n) * 0.5, r.randn(n, n) * 0.5
    S = np.eye(n)
    if spec.get("closednl"):                   # reactions that only exchange mass: zero column sums
        S = r.randn(n, n) * 0.5
        S -= S.mean(axis=0, keepdims=True)
    nl = float(spec.get("nl", 0.0))
    g = r.randn(n) * float(spec.get("force", 0.0))
    if spec.get("force1") and n > 1:           # force only one component
        g[1:] = 0.0
    w = np.asarray(float(spec.get("w", 1.3)))
    c = r.randn(n) * float(spec.get("const", 0.0))
    d = np.asarray(r.uniform(0.5, 1.5, n)) * float(spec.get("data", 0.0))
    lmode = spec.get("lmode", "A")
    if lmode == "A":
        L = A.copy()
    elif lmode == "diag":
        L = np.diag(np.diag(A))
    elif lmode == "zero":
        L = np.zeros((n, n))
    else:
        L = A + 0.2 * stiff * r.randn(n, n) / n
    Lu = r.uniform(-0.3, 0.3, n)
    E = np.random.RandomState((int(spec["seed"]) + 5) & 0x7FFFFFFF).randn(n, n) * 0.3 * float(spec.get("dataj", 0.0))
    G = np.random.RandomState((int(spec["seed"]) + 9) & 0x7FFFFFFF).uniform(0.5, 1.5, n) * float(spec.get("datat", 0.0))
    if spec.get("steady"):                     # the initial state is an equilibrium
        u = y0_of(dict(spec, unit=1.0))
        c = -(A @ u + nl * (S @ ((B1 @ u) * (B2 @ u))))
    s = float(spec.get("unit", 1.0))           # the same problem with the state measured in another unit
    if s != 1.0:
        nl, g, c, d, G = nl / s, g * s, c * s, d * s, G * s
    return dict(G=G, E=E, A=A, S=S, B1=B1, B2=B2, L=L, Lu=Lu, g=g, w=w, c=c, d=d, nl=np.asarray(nl))


class NpQuad:
    """numpy mirror"""

    def __init__(self, spec):
        self.__dict__.update(quad_arrays(spec))
        self.jac = spec.get("jac", "custom")
        self.ldep = bool(spec.get("ldep", False))
        self.n = int(spec["n"])
        self.x = 0.0
        self.unit = float(spec.get("unit", 1.0))
        self.gate = spec.get("gate", ())

    def f(self, t, u):
        return self.A @ u + self.nl * (self.S @ ((self.B1 @ u) * (self.B2 @ u))) + self.g * self._on(t) * np.sin(self.w * t) + self.c + self.x * (self.d + self.E @ u + self.G * np.sin(self.w * t))

    def J(self, t, u):
        return self.A + self.x * self.E + self.nl * (self.S @ (np.diag(self.B2 @ u) @ self.B1 + np.diag(self.B1 @ u) @ self.B2))

    def ft(self, t, u):
        return (self.g * self._on(t) + self.x * self.G) * self.w * np.cos(self.w * t)

    def _on(self, t):
        return 1.0 if not self.gate or (t > self.gate[0] if self.gate[1] > 0 else t <= self.gate[0]) else 0.0

    def l(self, t, u):
        return self.L + (np.diag(self.Lu * np.tanh(u)) if self.ldep else 0.0)


# --- shipped systems ---------------------------------------------------------
from ormatex_py.progression.lotka_volterra import LotkaVolterra as _LV, LotkaVolterraNonauto as _LVN  # noqa: E402
from ormatex_py.progression.bateman_sys import TestBatemanSysJac as _Bat, gen_bateman_matrix  # noqa: E402
from ormatex_py.progression import bateman_nonlin_sys as _bn  # noqa: E402


class SeamedLV(_Seamed, _LV):
    pass


class SeamedLVN(_Seamed, _LVN):
    pass


class SeamedBat(_Seamed, _Bat):
    pass


class SeamedNonlin(_Seamed, _bn.NonlinearBateman):
    pass


def chain_lib(spec):
    """random decay network with branching in the library's dictionary format; closed unless spec['open']"""
    n, r = int(spec["n"]), np.random.RandomState(int(spec["seed"]) & 0x7FFFFFFF)
    names = ["s%d" % i for i in range(n)]
    lib = {}
    for i, k in enumerate(names):
        lam = float(np.exp(r.uniform(-3, 2)))
        if i == n - 1:
            lib[k] = ("none", lam if spec.get("open") else 0.0)
        elif i < n - 2 and r.rand() < 0.5:
            j = int(r.randint(i + 1, n))
            br = float(r.uniform(0.1, 0.9))
            lib[k] = ((names[i + 1], br * lam), (names[j], (1 - br) * lam))
        else:
            lib[k] = (names[int(r.randint(i + 1, n))], lam)
    return names, lib


def chain_matrix(spec):
    """independent assembly of the same network"""
    names, lib = chain_lib(spec)
    n = len(names)
    T = np.zeros((n, n))
    for i, k in enumerate(names):
        e = lib[k]
        pairs = e if isinstance(e[0], tuple) else (e,)
        for child, lam in pairs:
            T[i, i] -= lam
            if child != "none":
                T[names.index(child), i] += lam
    return T


class NpLV:
    def __init__(self, spec):
        self.a, self.b, self.d, self.g = 1.0, 1.0, 1.0, 1.0
        self.na = spec["model"] == "lvna"
        self.n, self.jac, self.ldep, self.x = 2, ("custom" if self.na else spec.get("jac", "lv")), False, 0.0

    def hunt(self, t):
        return 0.4 * (np.sin(t * 0.2) + 1.0) if self.na else 0.0

    def f(self, t, u):
        return np.array([u[0] - u[0] * u[1], u[0] * u[1] - u[1] - self.hunt(t) * u[1]])

    def J(self, t, u):
        return np.array([[1 - u[1], -u[0]], [u[1], u[0] - 1 - self.hunt(t)]])

    def ft(self, t, u):
        return np.array([0.0, -0.4 * 0.2 * np.cos(t * 0.2) * u[1]]) if self.na else np.zeros(2)

    def l(self, t, u):
        return np.array([[-1.0, 0.0], [0.0, -1.0]])


class NpLinear:
    def __init__(self, A):
        self.A, self.n, self.jac, self.ldep, self.x = A, A.shape[0], "custom", False, 0.0

    def f(self, t, u):
        return self.A @ u

    def J(self, t, u):
        return self.A

    def ft(self, t, u):
        return np.zeros(self.n)

    def l(self, t, u):
        return self.A


class ElemSys(_Seamed, OdeSplitSys):
    """size-agnostic system: u_i' = -k u_i + q u_i u_{i+1} + s sin(w t) (1 + i/10)"""
    k: jax.Array
    q: jax.Array
    s: jax.Array

    def __init__(self, spec):
        r = np.random.RandomState(int(spec["seed"]) & 0x7FFFFFFF)
        self.k, self.q, self.s = jnp.asarray(r.uniform(0.5, 2)), jnp.asarray(r.uniform(0, 0.3)), jnp.asarray(r.uniform(0, 0.5))

    @jax.jit
    def _frhs(self, t, u, **kw):
        n = u.shape[0]
        return -self.k * u + self.q * u * jnp.roll(u, -1) + self.s * jnp.sin(1.3 * t) * (1 + jnp.arange(n) / 10.0)

    @jax.jit
    def _fl(self, t, u, **kw):
        return MatrixLinOp(-self.k * jnp.eye(u.shape[0]))


class SeamedXfer(_Seamed, _bn.NonlinearBateman):
    """the shipped liquid-vapour transfer system on a closed random chain (conserves the total)"""

    def __init__(self, spec):
        super().__init__(n_phi=0.0)
        self.bat_mat = jnp.asarray(closed_xfer(spec))


def closed_xfer(spec):
    r = np.random.RandomState(int(spec["seed"]) & 0x7FFFFFFF)
    A = np.abs(r.rand(9, 9)) * (r.rand(9, 9) < 0.3)
    np.fill_diagonal(A, 0.0)
    return A - np.diag(A.sum(0))


# parameters of a reaction system put together from the shipped source and sink closures
CLOS = dict(k1=0.7, kg=1.3, ka=0.8, a1=2.0, k2=0.4, a2=1.5, as2=0.3, e=5e3, apre=2.0, T=700.0, cv=3.0, al=0.2, k4=3e-5, h=3e-4, nb=4.0, Tb=800.0)


class ClosSys(_Seamed, OdeSplitSys):
    """liquid-vapour exchange, sorption, an Arrhenius reaction A + B -> C and ideal-gas bubbles, one block each"""
    ma: float = eqx.field(static=True)
    mb: float = eqx.field(static=True)

    def __init__(self, spec):
        self.ma, self.mb = float(spec.get("ma", 1.0)), float(spec.get("mb", 1.0))

    @jax.jit
    def _frhs(self, t, u, **kw):
        from ormatex_py.progression import species_source_sink as ss
        c = CLOS
        r1 = ss.mxf_liq_vapor_lin(u[0], u[1], k=c["k1"], k_g=c["kg"], k_a=c["ka"], a=c["a1"])
        r2 = ss.mxf_diffusion_sorption(u[2], u[3], c["as2"], k=c["k2"], a=c["a2"])
        r3 = ss.mxf_arrhenius(u[4], u[5], c["e"], c["apre"], m_a=self.ma, m_b=self.mb, T=c["T"])
        r4 = ss.mxf_liq_vapor_bubble_ig(u[7], u[8], c["cv"], alpha_g=c["al"], k=c["k4"], h=c["h"], nb=c["nb"], T=c["Tb"])
        return jnp.stack([r1, -r1, r2, -r2, -r3, -r3, r3, r4, -r4])

    @jax.jit
    def _fl(self, t, u, **kw):
        return MatrixLinOp(jnp.asarray(NpClos.L))


def bubble(ua, ug, cvol, alpha, k, h, nb, T):
    """mass transfer to ideal gas bubbles: coefficient, interface per volume, difference of potentials"""
    R = 8.3145
    vol = cvol * alpha / nb + 0.1 * (cvol * ug / 0.1013) * R * T / nb
    ab = nb * 4.0 * np.pi * (0.75 * vol / np.pi) ** (2.0 / 3.0)
    return k * ab * (ug / alpha * h * R * T - ua / (1.0 - alpha))


class NpAnalytic:
    """mirror whose right-hand side is analytic: the Jacobian is taken by a complex step"""
    jac, ldep, x, n = "ad", False, 0.0, 9

    def f(self, t, u):
        return self._f(np.asarray(u))

    def J(self, t, u):
        h = 1e-40
        return np.stack([self._f(u + 1j * h * e).imag / h for e in np.eye(self.n)], 1)

    def ft(self, t, u):
        return np.zeros(self.n)


class NpClos(NpAnalytic):
    L = np.zeros((9, 9))
    L[0, 0], L[1, 0], L[2, 2], L[3, 2] = -1.1, 1.1, -0.6, 0.6

    def __init__(self, spec):
        self.ma, self.mb = float(spec.get("ma", 1.0)), float(spec.get("mb", 1.0))

    def _f(self, u):
        c = CLOS
        r1 = c["k1"] * c["a1"] * (c["kg"] * u[1] - c["ka"] * u[0])
        r2 = -c["k2"] * c["a2"] * (u[2] - u[3] / c["as2"])
        r3 = u[4] ** self.ma * u[5] ** self.mb * c["apre"] * np.exp(-c["e"] / (8.3145 * c["T"]))
        r4 = bubble(u[7], u[8], c["cv"], c["al"], c["k4"], c["h"], c["nb"], c["Tb"])
        return np.array([r1, -r1, r2, -r2, -r3, -r3, r3, r4, -r4])

    def l(self, t, u):
        return self.L


class NpNonlin(NpAnalytic):
    """the shipped tank of liquid and vapour: decay, fission, capture, transfer of xenon to bubbles"""

    def __init__(self, spec, bat=None):
        ln2, H = np.log(2.0), 3600.0
        y = ln2 / (1.33e6 * 365 * 24 * H)
        self.B = transport._bat(9, [(0, None, 3.0), (1, None, 0.3), (2, None, 0.03), (3, 4, ln2 / 19.0), (4, 5, ln2 / (6.57 * H)), (5, 6, ln2 / (9.14 * H)),
                                    (6, None, y), (7, 8, ln2 / (9.14 * H)), (7, None, ln2), (8, None, y + ln2)]) if bat is None else bat
        phi = float(spec.get("n_phi", 0.0))
        self.c = phi * 1e-9 * np.array([0.03, 0.02, 0.01, 0.2, 0.01, 0, 0, 0, 0])
        self.D = -phi * 1e-9 * np.array([0, 0, 0, 0, 0, 1.0, 0, 1.0, 0])
        self.V = float(spec.get("tank_vol", 100.0))

    def _f(self, u):
        r = self.B @ u + self.c + self.D * u
        s = bubble(u[5], u[7], self.V, 0.05, 1e-2, 1e-4, 10.0, 900.0)
        r[5] += s
        r[7] -= s
        return r

    def l(self, t, u):
        return self.B


@functools.lru_cache(None)
def user_integrator():
    """an integrator a user would write on the public base class: two-step Adams-Bashforth, everything else inherited"""
    from ormatex_py.ode_sys import IntegrateSys, StepResult

    class AdamsBashforth2(IntegrateSys):
        _valid_methods = {"user": 2}

        def __init__(self, sys, t0, y0, method="user", **kw):
            super().__init__(sys, t0, y0, 2, method, **kw)

        def step(self, dt, frhs_kwargs={}):
            t, y = self.t, self.y_hist[0]
            f = self.sys.frhs(t, y, frhs_kwargs=frhs_kwargs)
            if len(self.y_hist) < 2:
                return StepResult(t + dt, dt, y + dt * f, -1.0)
            fp = self.sys.frhs(self.t_hist[1], self.y_hist[1], frhs_kwargs=frhs_kwargs)
            return StepResult(t + dt, dt, y + dt * (f + 0.5 * dt / (self.t_hist[0] - self.t_hist[1]) * (f - fp)), -1.0)
    return AdamsBashforth2


_SHIP = {}


def _ship():
    """seamed versions of the shipped transport systems (imported when first needed: plotting modules, example folders)"""
    if not _SHIP:
        import skfem as fem
        from ormatex_py.progression import advection_diffusion_1d as ad, rad_1d_2s, rad_1d_3s, rad_1d_9s
        _SHIP.update(fem=fem, ad=ad, sem=type("SeamedSEM", (_Seamed, ad.AffineLinearSEM), {}), semna=type("SeamedSEMna", (_Seamed, ad.NonautonomousSEM), {}),
                     rad2=type("SeamedRad2", (_Seamed, rad_1d_2s.RAD_SEM), {}), rad3=type("SeamedRad3", (_Seamed, rad_1d_3s.RAD_SEM), {}),
                     rad9=type("SeamedRad9", (_Seamed, rad_1d_9s.RAD_SEM), {}))
    return _SHIP


TRANSPORT = ("sem", "semna", "rad2", "rad3", "rad9")


def _transport(spec):
    S = _ship()
    fem, W, p = S["fem"], float(spec.get("width", 1.0)), int(spec.get("p", 1))
    spec = dict(spec, p=p)
    mesh = fem.MeshLine1(np.array([[0.0, W]])) if spec.get("grade", 1.0) == 1.0 else fem.MeshLine1.init_tensor(transport.grid(spec))
    mesh = mesh.with_boundaries({"left": lambda x: np.isclose(x[0], 0.), "right": lambda x: np.isclose(x[0], W)})
    if spec.get("grade", 1.0) == 1.0:
        mesh = mesh.refined(int(spec.get("ref", 2)))
    if spec.get("per"):
        mesh = fem.MeshLine1DG.periodic(mesh, mesh.boundaries["right"], mesh.boundaries["left"])
    ff = {}
    if spec.get("vary"):
        velf, nuf = transport.fields(spec)
        ff = {"vel": lambda x, **kw: velf(x), "nu": lambda x, **kw: nuf(x)}
    for q in spec.get("before", []):         # another problem on the same mesh, assembled first
        S["ad"].AdDiffSEM(mesh, p=q, params={"nu": 0.3, "vel": 0.7, "tau": 0.1}).assemble()
    a = S["ad"].AdDiffSEM(mesh, p=p, params={"nu": float(spec.get("nu", 0.02)), "vel": float(spec.get("vel", 0.5)), "tau": float(spec.get("tau", 0.0))}, field_fns=ff)
    m = spec["model"]
    s = S[m](a)
    if "closed" in spec:
        s = eqx.tree_at(lambda q: q.bat_mat, s, jnp.asarray(transport.closed_bat(transport.NSPEC[m], spec["closed"])))
    xs = np.asarray(a.collocation_points())
    return s, (transport.NpSem if m in ("sem", "semna") else transport.NpRad)(spec, xs)


class NpElem:
    def __init__(self, e, n):
        self.k, self.q, self.s, self.n, self.jac, self.ldep, self.x = float(e.k), float(e.q), float(e.s), n, "ad", False, 0.0
        self.a = 1 + np.arange(n) / 10.0

    def f(self, t, u):
        return -self.k * u + self.q * u * np.roll(u, -1) + self.s * np.sin(1.3 * t) * self.a

    def J(self, t, u):
        n = len(u)
        P = np.roll(np.eye(n), -1, axis=0)
        return -self.k * np.eye(n) + self.q * (np.diag(np.roll(u, -1)) + np.diag(u) @ P)

    def ft(self, t, u):
        return self.s * 1.3 * np.cos(1.3 * t) * self.a

    def l(self, t, u):
        return -self.k * np.eye(len(u))


_CACHE = {}


def build(spec):
    """(seamed system, numpy mirror or None)"""
    m = spec.get("model", "quad")
    if m == "quad":
        return (PlainQuad if spec.get("plain") else QuadSys)(spec), NpQuad(spec)
    if m == "lv":
        return SeamedLV(), NpLV(spec)
    if m == "lvna":
        return SeamedLVN(), NpLV(spec)
    if m == "bateman":
        names, lib = chain_lib(spec)
        return SeamedBat(names, lib), NpLinear(chain_matrix(spec))
    if m == "elem":
        e = ElemSys(spec)
        return e, NpElem(e, int(spec["n"]))
    key = repr(sorted((k, v) for k, v in spec.items() if k != "y0seed"))
    if key not in _CACHE:
        if True:
            if m == "nonlin":
                s = SeamedNonlin(n_phi=float(spec.get("n_phi", 0.0)), **({"tank_vol": float(spec["tank_vol"])} if "tank_vol" in spec else {}))
                _CACHE[key] = (s, NpNonlin(spec))
            elif m == "xfer":
                s = SeamedXfer(spec)
                _CACHE[key] = (s, NpNonlin(spec, closed_xfer(spec)))
            elif m == "clos":
                _CACHE[key] = (ClosSys(spec), NpClos(spec))
            elif m in TRANSPORT:
                _CACHE[key] = _transport(spec)
            else:
                raise KeyError(m)
    return _CACHE[key]


def unit(M):
    return float(getattr(M, "unit", 1.0))


def y0_of(spec):
    r = np.random.RandomState((int(spec.get("y0seed", spec.get("seed", 0))) + 977) & 0x7FFFFFFF)
    m = spec.get("model", "quad")
    if m in ("lv", "lvna"):
        return r.uniform(0.3, 1.5, 2)
    if m == "nonlin":
        return np.exp(r.uniform(-3, 0, 9)) * 1e-6
    if m == "xfer":
        return r.uniform(0.1, 1.0, 9) * 1e-6
    if m == "clos":
        return r.uniform(0.1, 1.0, 9)
    if m in TRANSPORT:
        n = int(spec.get("p", 1)) * 2 ** int(spec.get("ref", 2)) + (0 if spec.get("per") else 1)
        return r.uniform(0.05, 1.0, n * transport.NSPEC.get(m, 1)) * (1e-6 if m == "rad9" else 1.0)
    n, s = int(spec["n"]), float(spec.get("unit", 1.0))
    if m in ("bateman", "elem") or spec.get("kind") in ("closed", "chain", "chain0"):
        return r.uniform(0.1, 1.0, n) * s
    return (r.uniform(-1, 1, n) + 0.3) * s
