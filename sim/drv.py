"""The integration driver: C07 reports and callbacks, C08 crash and resume, C14 per-step data."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from . import gen, ref, models, seams, sched, world
from .world import Violation, bits, call, make_integrator, close, err
from .hist import guard, conform, eager_ctx, LEJA_RT, leja_rt

OWN = ref.ALL
KNOWN_IGNORE = set(ref.SPLIT) | {"exprb2_dense", "rk4"}

TAB = {
    "euler": ([0], [[]], [1]),
    "heun": ([0, 1], [[], [1]], [.5, .5]),
    "midpoint": ([0, .5], [[], [.5]], [0, 1]),
    "bosh3": ([0, .5, .75], [[], [.5], [0, .75]], [2 / 9, 1 / 3, 4 / 9]),
    "dopri5": ([0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1],
               [[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9], [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
                [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656]], [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84])}


def rk(M, tab, t, dt, y):
    c, a, b = tab
    k = []
    for ci, ai in zip(c, a):
        k.append(M.f(t + ci * dt, y + dt * sum((x * kk for x, kk in zip(ai, k)), np.zeros(len(y)))))
    return y + dt * sum(x * kk for x, kk in zip(b, k))


def integ(sysm, y0, t0, dt, n, method, **kw):
    from ormatex_py.integrate_wrapper import integrate, integrate_ormatex, IntegrateResult
    if method == "user":
        t, y, c = integrate_ormatex(make_integrator(sysm, method, t0, y0, {}), jnp.asarray(y0), t0, dt, n, method=method, **kw)
        return IntegrateResult(t, y, c, 0)
    return integrate(sysm, jnp.asarray(y0), t0, dt, n, method, **kw)


class CB:
    """recording user callback, optionally failing at its j-th call"""

    def __init__(self, log, name, ret=None, fail=None, cls="ModelFault"):
        self.log, self.name, self.ret, self.fail, self.cls, self.n = log, name, ret, fail, cls, 0

    def __call__(self, s, t, y):
        k = self.n
        self.n += 1
        self.log.append((self.name, s, float(t), y, bits(y)))
        if self.fail is not None and k == self.fail:
            raise seams.EXC[self.cls]("injected in %s callback %d" % (self.name, k))
        return self.ret(k, t, y) if self.ret else None


RETS = {"none": lambda k, t, y: None, "num": lambda k, t, y: float(k) + 0.5, "dict": lambda k, t, y: {"step": k},
        "arr": lambda k, t, y: jnp.sum(y), "empty": lambda k, t, y: {}}


class C07:
    ID = "C07"
    METHODS = OWN + ref.USER + ref.DIFFRAX

    @staticmethod
    def gen(i, rng, method, tier):
        dfx = method in ref.DIFFRAX
        m = gen.gen_model(rng, "exprb2" if dfx else method, shipped=0.15, n=rng.choice([2, 3]) if dfx else None)
        if dfx and m["model"] in ("sem", "semna", "nonlin"):
            m = dict(model="lvna", y0seed=rng.randrange(1 << 20))
        n = rng.choice([0, 1, 2, 3, 4, 6]) if not dfx else rng.choice([1, 2, 3, 5])
        dt = gen.gen_dt(rng, method)
        if rng.random() < 0.15 and method not in ref.LEJA + ["exp_pfd", "exprb2_pfd"]:
            dt = -dt
        if dfx:
            m.pop("unit", None)
            dt = max(min(dt, 0.2), -0.2)
        if dfx and method.startswith("implicit"):
            dt = abs(dt)                       # backward in time the stage equations need not be solvable
        s = dict(method=method, model=m, opts=gen.gen_opts(rng, method, m.get("n", 2)), t0=gen.gen_t0(rng), dt=dt, n=n)
        if dfx and method.startswith("implicit"):
            s["opts"] = {"lin_solver": rng.choice(["qr", "qr", "gmres"])}
        if rng.random() < 0.3:
            s["t0"] = round(rng.uniform(-50, 50), 4)
        s["before"] = rng.choice([None, "none", "num", "dict", "arr", "empty", "nocall"])
        s["after"] = rng.choice([None, "none", "num", "dict", "arr", "nocall"])
        s["clock"] = [rng.choice([0.0, -1e6, 1e9, -3600.0, 1e-9, 5.0]) for _ in range(rng.choice([0, 2, 2]))]
        if not dfx and n:
            c = rng.random()
            if c < 0.18:
                s["fault"] = dict(where=rng.choice(["before", "after"]), at=rng.randrange(n), cls=rng.choice(seams.SEAM_EXC + ["KeyboardInterrupt", "StopIteration", "SystemExit"]))
            elif c < 0.4:
                s["fault"] = gen.gen_fault(rng, method, ("exc", "intr"))
        s["sched"] = gen.gen_sched(rng, method == "pexprb4")
        s["runs"] = 2 if rng.random() < 0.3 else 1
        if rng.random() < 0.1:
            s["unknown"] = rng.choice(["exprb4", "EPI2", "", "rk5", "epi3_leja", "bdf3", "no such method", "exprb2_rs", "epi3_rs", "exp_pfd_rs", "exprb2_pfd_rs"])
        return s

    @staticmethod
    def run(spec):
        method, opts, t0, dt, n = spec["method"], spec["opts"], spec["t0"], spec["dt"], spec["n"]
        dfx = method in ref.DIFFRAX
        flt = spec.get("fault")
        with world.SimRun(spec.get("sched"), lines="'intr'" in str(flt), clock=spec.get("clock")) as run:
            sysm, M = models.build(spec["model"])
            y0 = models.y0_of(spec["model"])
            leja = method in ref.LEJA
            checks, fired, sig = 0, 0, []

            def kws(log, fail=None):
                kw = dict(opts)
                for name, key in (("before", "callback_before_step"), ("after", "callback_after_step_accept")):
                    r = spec[name]
                    hit = fail and fail.get("where") == name
                    if r == "nocall" and not hit:
                        kw[key] = 3
                    elif r is not None or hit:
                        f = fail if fail and fail.get("where") == name else None
                        kw[key] = CB(log, name, RETS.get(r), f["at"] if f else None, f["cls"] if f else None)
                return kw

            def reference():
                """the steps the driver has to take"""
                I = make_integrator(sysm, method, t0, y0, opts)
                T, Y = [float(t0)], [np.asarray(y0)]
                for k in range(n):
                    kw = {}
                    if spec["before"] not in (None, "nocall"):
                        kw = dict(frhs_kwargs=RETS[spec["before"]](k, T[-1], jnp.asarray(Y[-1])))
                    v = guard(lambda: I.step(dt, **kw), "reference step")
                    I.accept_step(v)
                    T.append(float(v.t))
                    Y.append(np.asarray(v.y))
                return T, Y
            if spec.get("unknown") is not None:
                # a method that does not exist (or needs the absent Rust extension) is refused before any work is done
                v, e, c = call("main", lambda: integ(sysm, y0, t0, dt, n, spec["unknown"], **kws([])))
                if not isinstance(e, Exception) or c.hits:
                    raise Violation("unknown-method", "method %r: got %s after %d model evaluations" % (spec["unknown"], "a result" if e is None else "%s: %s" % (type(e).__name__, e), c.hits))
                checks += 1
            run.dec.quiet = True
            T, Y = reference() if not dfx else (None, None)
            # a failing integration first
            if flt:
                if "where" in flt:
                    fl, fail = [], flt
                else:
                    fail = None
                    _, _, c0 = call("main", lambda: integ(sysm, y0, t0, dt, n, method, **kws([])))
                    tot = c0.lines if flt["k"] == "intr" else c0.hits
                    f = dict(flt)
                    if "u" in f:
                        f["at"] = 1 + int(f["u"] * tot)
                    fl = [f] if tot > 0 else []
                run.dec.quiet = False
                log = []
                v, e, c = call("main", lambda: integ(sysm, y0, t0, dt, n, method, **kws(log, fail)), fl)
                hit = bool(c.fired) or fail is not None
                checks += 1
                fired += hit
                cls = flt["cls"]
                sig.append((cls, None if e is None else type(e).__name__, len(log)))
                if hit and e is None:
                    raise Violation("failure-swallowed", "%s: %s during the integration, but it returned" % (method, flt))
                if hit and not isinstance(e, seams.EXC[cls]) and not (cls == "StopIteration" and isinstance(e, RuntimeError)):
                    raise Violation("failure-changed", "%s: injected %s, caller saw %s: %s" % (method, cls, type(e).__name__, str(e)[:100]))
                C07.order(spec, log, sysm, T, Y, leja, fail=fail, partial=True)
                if fail:
                    k = fail["at"]
                    nb = k + 1 if spec["before"] not in (None, "nocall") or fail["where"] == "before" else 0
                    na = (k if fail["where"] == "before" else k + 1) if spec["after"] not in (None, "nocall") or fail["where"] == "after" else 0
                    got = [sum(1 for x in log if x[0] == w) for w in ("before", "after")]
                    if got != [nb, na]:
                        raise Violation("callback-count", "%s: %s callback failed at step %d: callbacks ran %s times, expected %s" % (method, fail["where"], k, got, [nb, na]))
            run.dec.quiet = False
            for _ in range(spec["runs"]):
                log = []
                r, e, c = call("main", lambda: integ(sysm, y0, t0, dt, n, method, **kws(log)))
                if e is not None and method.startswith("implicit") and M is not None and getattr(M, "nl", 0.0) and "onlinear" in str(e) \
                        and abs(dt) * np.linalg.norm(M.J(t0, np.asarray(y0)), 1) > 0.4:
                    break                      # it reports that the Newton iteration of a stage diverged; allowed
                if e is not None:
                    raise Violation("unexpected-exception", "integrate(%s, t0=%g, dt=%g, n=%d) raised %s: %s" % (method, t0, dt, n, type(e).__name__, str(e)[:160]))
                checks += 3 + n
                t, y = list(r.t), list(r.y)
                if r.t_res is not r.t or r.y_res is not r.y or r.cb is not r.callback_res:
                    raise Violation("result-fields", "t_res/y_res/cb disagree with t/y/callback_res")
                if len(t) != n + 1 or len(y) != n + 1:
                    raise Violation("step-count", "%s: %d steps requested, %d times and %d states returned" % (method, n, len(t), len(y)))
                if float(t[0]) != float(t0) or bits(y[0]) != bits(y0):
                    raise Violation("first-record", "%s: first record is not the initial condition: t=%r" % (method, t[0]))
                for k in range(n + 1):
                    if not abs(float(t[k]) - (t0 + k * dt)) <= 1e-9 * max(1.0, abs(t0), abs(n * dt)):
                        raise Violation("wrong-time", "%s: record %d has time %r, expected %r" % (method, k, float(t[k]), t0 + k * dt))
                if dfx:
                    C07.diffrax(spec, sysm, M, t, y)
                else:
                    for k in range(n + 1):
                        if float(t[k]) != T[k] or not same(y[k], Y[k], leja):
                            raise Violation("not-the-steps", "%s: record %d (t=%r) is not the accepted result of its step: %s" % (method, k, float(t[k]), err(y[k], Y[k])))
                    if M is not None and spec["before"] in (None, "nocall", "none", "empty"):
                        e = _E(M, method, opts)
                        for k in range(n):
                            if np.abs(np.asarray(y[k])).max() < 1e3 * models.unit(M):
                                h = [(float(t[k]), np.asarray(y[k]))] + ([(float(t[k - 1]), np.asarray(y[k - 1]))] if k else [])
                                conform(e, h, dt, np.asarray(y[k + 1]))
                        checks += e.checks
                    C07.order(spec, log, sysm, T, Y, leja)
                    want = {"callback_before_step": spec["before"], "callback_after_step_accept": spec["after"]}
                    for key, w in want.items():
                        got = r.callback_res.get(key, [])
                        exp = [] if w in (None, "nocall") else n
                        if exp == []:
                            if len(got):
                                raise Violation("callback-results", "%s: %d results for a callback that was not given" % (method, len(got)))
                            continue
                        off = 0 if "before" in key else 1
                        exp = [RETS[w](k, T[k + off], jnp.asarray(Y[k + off])) for k in range(n)]
                        if len(got) != n or any(not _eqret(a, b, leja) for a, b in zip(got, exp)):
                            raise Violation("callback-results", "%s: %s results %s, expected %s" % (method, key, got, exp))
                sig.append((n, len(log)))
            for x in log:
                if bits(x[3]) != x[4]:
                    raise Violation("record-modified", "%s: a state given to a callback changed afterwards" % method)
            d = run.stats()
            d.update(checks=checks, vt=abs(dt) * n, nontrivial=bool(fired or spec["clock"] or len(log)), nfail=fired,
                     sig=world.digest(method, spec["model"], t0, dt, n, spec["before"], spec["after"], sig, d["trace"]))
            return d

    @staticmethod
    def order(spec, log, sysm, T, Y, leja, fail=None, partial=False):
        """once per step: before(t_k, y_k), then after(t_{k+1}, y_{k+1})"""
        hb = spec["before"] not in (None, "nocall") or (fail and fail["where"] == "before")
        ha = spec["after"] not in (None, "nocall") or (fail and fail["where"] == "after")
        exp = []
        for k in range(spec["n"]):
            if hb:
                exp.append(("before", k))
            if ha:
                exp.append(("after", k + 1))
        if len(log) > len(exp) or (not partial and len(log) != len(exp)):
            raise Violation("callback-count", "%s: %d callback calls, expected %d" % (spec["method"], len(log), len(exp)))
        for (name, s, t, y, _), (en, k) in zip(log, exp):
            if name != en or t != T[k] or not same(y, Y[k], leja):
                raise Violation("callback-args", "%s: got %s callback with t=%r, expected %s with t=%r%s" % (
                    spec["method"], name, t, en, T[k], "" if same(y, Y[k], leja) else "; its state is not the one at that time"))
            if s is not sysm:
                raise Violation("callback-args", "%s: callback did not get the caller's system" % spec["method"])

    @staticmethod
    def diffrax(spec, sysm, M, t, y):
        method, dt = spec["method"], spec["dt"]
        if M is None:
            return
        for k in range(spec["n"]):
            t1, y1, y2 = float(t[k]), np.asarray(y[k]), np.asarray(y[k + 1])
            if not np.all(np.isfinite(y1)) or np.abs(y1).max() > 1e3:
                break
            sc = max(np.abs(y1).max(), np.abs(y2).max(), 1e-3)
            if method in TAB:
                ye, tol = rk(M, TAB[method], t1, dt, y1), 1e-9
                d = np.abs(ye - y2).max()
            elif method == "implicit_euler":
                d, tol = np.abs(y2 - y1 - dt * M.f(t1 + dt, y2)).max(), 2e-6
            else:
                ye = _dfx_one(method)(sysm, jnp.float64(t1), jnp.float64(float(t[k + 1])), dt, jnp.asarray(y1))
                d, tol = np.abs(np.asarray(ye) - y2).max(), 2e-6
            if not d <= tol * sc:
                raise Violation("not-the-steps", "%s: record %d is not the %s step from record %d: off by %.2e" % (method, k + 1, method, k, d))


@functools.lru_cache(None)
def _dfx_one(method):
    import diffrax, optimistix, lineax, equinox as eqx
    cls = {"implicit_esdirk3": diffrax.Kvaerno3, "implicit_esdirk4": diffrax.Kvaerno4}[method]
    solver = cls(root_finder=optimistix.Newton(rtol=1e-9, atol=1e-9, linear_solver=lineax.QR(), norm=optimistix.max_norm))

    @eqx.filter_jit
    def one(s, t0, t1, dt, y):
        return diffrax.diffeqsolve(diffrax.ODETerm(s), solver, t0, t1, None, y, saveat=diffrax.SaveAt(t1=True),
                                   stepsize_controller=diffrax.StepTo(jnp.stack([t0, t1])), max_steps=4).ys[-1]
    return one


def same(a, b, leja):
    if bits(a) == bits(b):
        return True
    b = np.asarray(b)
    return leja and close(a, b, LEJA_RT, max(np.abs(b).max(initial=0.0), 1e-290))


def _eqret(a, b, leja=False):
    if isinstance(a, dict) or isinstance(b, dict) or a is None or b is None:
        return type(a) is type(b) and a == b
    a, b = float(a), float(b)
    return a == b or (leja and abs(a - b) <= LEJA_RT * max(1, abs(b)))


class _E:
    leja = False

    def __init__(self, M, method, opts):
        self.M, self.method, self.opts, self.checks = M, method, opts, 0


# ---------------------------------------------------------------------------
class Died(Exception):
    """the simulated process died"""


class C08:
    ID = "C08"
    METHODS = OWN + ref.USER + ref.DIFFRAX

    @staticmethod
    def gen(i, rng, method, tier):
        dfx = method in ref.DIFFRAX
        m = gen.gen_model(rng, "exprb2" if dfx else method, shipped=0.15, n=rng.choice([2, 3]) if dfx else None)
        if dfx and m["model"] in ("sem", "semna", "nonlin"):
            m = dict(model="lvna", y0seed=rng.randrange(1 << 20))
        n = rng.randint(2, 7) if not dfx else rng.randint(2, 4)
        dt = gen.gen_dt(rng, method)
        if dfx:
            dt = min(dt, 0.15)
        if rng.random() < 0.12 and method not in ref.LEJA + ["exp_pfd", "exprb2_pfd"] and not method.startswith("implicit"):
            dt = -dt
        if dfx:
            m.pop("unit", None)
        s = dict(method=method, model=m, opts=gen.gen_opts(rng, method, m.get("n", 2)), dt=dt, n=n,
                 t0=rng.choice([0.0, 0.5, -1.25, 3.0, round(rng.uniform(-100, 100), 3)]))
        if dfx and method.startswith("implicit"):
            s["opts"] = {"lin_solver": "qr"}
        cr = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            how = rng.choice(["after", "after", "before", "model", "intr"]) if not dfx else "stop"
            c = dict(how=how, u=round(rng.random(), 4))
            if how in ("after",) and rng.random() < 0.3:
                c["lost"] = 1                       # the last record did not reach the disk
            cr.append(c)
        s["crashes"] = cr
        s["sched"] = gen.gen_sched(rng, method == "pexprb4")
        if rng.random() < 0.04:
            s["newproc"] = 1                        # nothing compiled survives either
        return gen.late(rng, s, dt) if not dfx else s

    @staticmethod
    def run(spec):
        method, opts, t0, dt, n = spec["method"], spec["opts"], spec["t0"], spec["dt"], spec["n"]
        dfx, leja, multi = method in ref.DIFFRAX, method in ref.LEJA, method in ref.MULTISTEP
        with world.SimRun(spec.get("sched"), lines="'intr'" in str(spec)) as run:
            sysm, M = models.build(spec["model"])
            y0 = models.y0_of(spec["model"])
            base, e, _ = call("main", lambda: integ(sysm, y0, t0, dt, n, method, **opts))
            if e is not None:
                raise Violation("unexpected-exception", "integrate(%s) raised %s: %s" % (method, type(e).__name__, str(e)[:160]))
            disk = [(float(t0), np.array(y0))]              # durable records
            starts, sig, checks, died = [0], [], 0, 0
            crashes = [dict(c) for c in spec["crashes"]]
            while len(disk) < n + 1:
                left = n + 1 - len(disk)
                c = crashes.pop(0) if crashes else None
                ts, ys = disk[-1]
                if dfx:
                    k = left if c is None else max(1, min(left, int(c["u"] * left) + 1))
                    r, e, _ = call("main", lambda: integ(sysm, ys, ts, dt, k, method, **opts))
                    if e is not None:
                        raise Violation("unexpected-exception", "%s: resumed run raised %s: %s" % (method, type(e).__name__, str(e)[:160]))
                    disk += [(float(a), np.array(b)) for a, b in zip(list(r.t)[1:], list(r.y)[1:])]
                    died += c is not None
                    sig.append(("stop", k))
                else:
                    at = c.get("at", int(c["u"] * left)) if c and c["how"] in ("after", "before") else None
                    cnt = [0, 0]

                    def before(s, t, y):
                        k = cnt[0]
                        cnt[0] += 1
                        if c and c["how"] == "before" and k == at:
                            raise Died()

                    def after(s, t, y):
                        k = cnt[1]
                        cnt[1] += 1
                        rec = (float(t), np.array(y))
                        if not (c and c["how"] == "after" and k == at and c.get("lost")):
                            disk.append(rec)
                        if c and c["how"] == "after" and k == at:
                            raise Died()
                    kw = dict(opts, callback_after_step_accept=after)
                    if c and c["how"] == "before":
                        kw["callback_before_step"] = before
                    fl = []
                    if c and c["how"] in ("model", "intr"):
                        run.dec.quiet = True
                        _, _, c0 = call("main", lambda: integ(sysm, ys, ts, dt, left, method, **opts))
                        run.dec.quiet = False
                        tot = c0.lines if c["how"] == "intr" else c0.hits
                        if tot:
                            fl = [dict(k="intr" if c["how"] == "intr" else "exc", at=1 + int(c["u"] * tot), cls="KeyboardInterrupt" if c["how"] == "intr" else "ModelFault")]
                    r, e, cc = call("main", lambda: integ(sysm, ys, ts, dt, left, method, **kw), fl)
                    if e is not None and not isinstance(e, (Died, KeyboardInterrupt, seams.ModelFault)):
                        raise Violation("unexpected-exception", "%s: resumed run raised %s: %s" % (method, type(e).__name__, str(e)[:160]))
                    died += e is not None
                    sig.append((c["how"] if c else "end", len(disk), None if e is None else type(e).__name__))
                    if e is None and len(disk) < n + 1:
                        raise Violation("records-missing", "%s: run completed with %d of %d records" % (method, len(disk), n + 1))
                if len(disk) < n + 1:
                    starts.append(len(disk) - 1)
                    if spec.get("newproc"):
                        jax.clear_caches()
                    sysm, M = models.build(spec["model"])      # the new process builds its own system
            if len(disk) != n + 1:
                raise Violation("records-missing", "%s: %d records instead of %d" % (method, len(disk), n + 1))
            bt, by = [float(x) for x in list(base.t)], [np.asarray(x) for x in list(base.y)]
            for k in range(n + 1):
                checks += 1
                t, y = disk[k]
                if not abs(t - bt[k]) <= 1e-9 * max(1.0, abs(t0), abs(n * dt)):
                    raise Violation("resume-differs", "%s: record %d has time %r, uninterrupted run %r" % (method, k, t, bt[k]))
                if not np.all(np.isfinite(by[k])) or np.abs(by[k]).max() > 1e4 * models.unit(M):
                    break
                if multi and any(s and s < k for s in starts):
                    # the documented restart: history of the resumed segment only
                    s = max(x for x in starts if x < k)
                    h = [disk[k - 1]] + ([disk[k - 2]] if k - 2 >= s else [])
                    ex = _E(M, method, opts)
                    conform(ex, h, dt, y)
                    if M is not None:
                        checks += 1
                        continue
                    continue
                sc = max(np.abs(by[k]).max(), np.abs(y0).max(), 1e-290)
                tol = 3e-5 if method.startswith("implicit") else 1e-8 if dfx else 10 * leja_rt(spec["model"]) if leja else None
                okk = bits(y) == bits(by[k]) or (tol and close(y, by[k], tol, sc)) or close(y, by[k], 1e-11, sc)
                if not okk:
                    raise Violation("resume-differs", "%s: record %d after stopping at %s differs from the uninterrupted run: %s" % (method, k, starts[1:], err(y, by[k])))
            d = run.stats()
            d.update(checks=checks, vt=abs(dt) * n, nontrivial=died > 0, nfail=died, sig=world.digest(method, spec["model"], t0, dt, n, sig, d["trace"]))
            d["fired"] = dict(d["fired"], crash=died, lost_record=sum(1 for c in spec["crashes"] if c.get("lost")))
            return d


# ---------------------------------------------------------------------------
class C14:
    ID = "C14"

    @staticmethod
    def gen(i, rng, method, tier):
        honour = method not in KNOWN_IGNORE
        n = rng.choice(gen.NS)
        while True:
            m = gen.gen_model(rng, method, n=n, shipped=0.0)
            if m["model"] == "quad":
                break
        if method != "exp_pfd":
            m["data"] = rng.choice([1.0, 3.0])
            if method in ("epi2_leja_re", "exprb2_pfd"):
                m["data"] = 1.0
            elif rng.random() < 0.6:
                m["dataj"] = 1.0
        else:
            m["dataj"] = 0.2
        if method != "exp_pfd" and rng.random() < 0.6:
            m["datat"] = 1.0
        if method in ref.LEJA and rng.random() < 0.5:
            m.pop("dataj", None)
        if m.get("ldep"):
            m["ldep"] = False
        lvl = rng.choice(["driver", "driver", "record", "steps", "steps"]) if honour else rng.choice(["driver", "record", "record"])
        s = dict(method=method, model=m, opts=gen.gen_opts(rng, method, n), t0=gen.gen_t0(rng), level=lvl)

        def val():
            return rng.choice([0.0, round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3)])
        form = rng.choice(["float", "float", "jnp", "extra", "mixed"])
        if lvl == "driver":
            k = rng.randint(1, 5)
            s.update(n=k, dt=gen.gen_dt(rng, method), data=[val() if rng.random() < 0.85 else None for _ in range(k)], form=form)
            if rng.random() < 0.35:
                s["fault"] = gen.gen_fault(rng, method, ("exc", "intr"))
        elif lvl == "record":
            s.update(n=rng.randint(1, 5), dt=gen.gen_dt(rng, method), ret=rng.choice(["none", "num", "dict", "arr", "empty"]), after=rng.random() < 0.5)
        else:
            ops, dt = [], None
            for _ in range(rng.randint(2, 5)):
                dt = gen.gen_dt(rng, method, dt)
                j = rng.randrange(2)
                if rng.random() < 0.4:
                    ops.append(dict(op="step", i=j, dt=dt, x=val()))            # discarded proposal with other data
                if rng.random() < 0.35:
                    ops.append(dict(op="step", i=j, dt=dt, x=val(), faults=[gen.gen_fault(rng, method, ("exc", "intr"))]))
                if rng.random() < 0.3:
                    ops.append(dict(op="step", i=1 - j, dt=dt, x=val()))
                ops.append(dict(op="step", i=j, dt=dt, x=val() if rng.random() < 0.9 else None))
                ops.append(dict(op="accept", i=j))
            s.update(ops=ops, form=form)
        s["sched"] = gen.gen_sched(rng, method == "pexprb4")
        return s

    @staticmethod
    def run(spec):
        lines = "'intr'" in str(spec)
        with world.SimRun(spec.get("sched"), lines=lines) as run:
            return getattr(C14, spec["level"])(spec, run)

    @staticmethod
    def watch(run):
        """data every evaluation outside compiled code saw"""
        seen = []

        def obs(kind, data, c):
            if kind in ("frhs", "fjac") and data is not None:
                seen.append((kind, models._data(data)))
        run.seam.observer = obs
        return seen

    @staticmethod
    def driver(spec, run):
        method, opts, t0, dt, n = spec["method"], spec["opts"], spec["t0"], spec["dt"], spec["n"]
        sysm, M = models.build(spec["model"])
        y0 = models.y0_of(spec["model"])
        seen = C14.watch(run)
        marks = []
        known, checks, nf, segs = [], 0, 0, []

        def go(k0, ts, ys, faults):
            recs, mk = [], []

            def before(s, t, y):
                k = k0 + len(mk)
                mk.append(len(seen))
                return pack(spec["data"][k], spec["form"], k)

            def after(s, t, y):
                recs.append((float(t), np.array(y)))
            del seen[:]
            r, e, c = call("main", lambda: integ(sysm, ys, ts, dt, n - k0, method, callback_before_step=before, callback_after_step_accept=after, **opts), faults)
            mk.append(len(seen))
            # no evaluation of a step saw the data of another one
            for j in range(len(mk) - 1):
                x = spec["data"][k0 + j] or 0.0
                for kind, xs in seen[mk[j]:mk[j + 1]]:
                    if float(xs) != x and method not in KNOWN_IGNORE:
                        raise Violation("wrong-data", "%s: a %s evaluation of step %d saw data %r, the callback gave %r" % (method, kind, k0 + j, float(xs), x))
            return recs, e, c, len(seen)
        pos, ts, ys = 0, t0, y0
        flt = spec.get("fault")
        while pos < n:
            fl = []
            if flt:
                run.dec.quiet = True
                _, _, c0, _ = go(pos, ts, ys, [])
                run.dec.quiet = False
                tot = c0.lines if flt["k"] == "intr" else c0.hits
                f = dict(flt)
                if "u" in f:
                    f["at"] = 1 + int(f["u"] * tot)
                fl = [f] if tot > 0 else []
                flt = None
            recs, e, c, ns = go(pos, ts, ys, fl)
            checks += 1 + ns
            if c.fired:
                nf += 1
                if e is None or not isinstance(e, seams.EXC[fl[0]["cls"]]):
                    raise Violation("failure-swallowed", "%s: injected %s, integrate gave %r" % (method, c.fired, e))
            elif e is not None:
                raise Violation("unexpected-exception", "%s with per-step data raised %s: %s" % (method, type(e).__name__, str(e)[:160]))
            hist = [(float(ts), np.array(ys))]
            for j, rec in enumerate(recs):
                if np.abs(hist[0][1]).max() > 1e3 * models.unit(M):
                    pos = n
                    break
                k = C14.one(spec, M, method, opts, dt, hist, rec[1], spec["data"][pos + j] or 0.0)
                checks += 1
                if k:
                    known.append(k)
                hist.insert(0, rec)
            pos += len(recs)
            if recs:
                ts, ys = recs[-1]
            segs.append(len(recs))
        d = run.stats()
        d.update(checks=checks, vt=abs(dt) * n, nontrivial=any(spec["data"]), nfail=nf, known=sorted(set(known)),
                 sig=world.digest(method, spec["model"], opts, spec["data"], dt, segs, d["trace"]))
        return d

    @staticmethod
    def one(spec, M, method, opts, dt, hist, y, x):
        """the step equals the scheme with exactly this data; returns a known-finding key"""
        M.x = float(x or 0.0)
        ex = _E(M, method, opts)
        try:
            conform(ex, hist[:2], dt, y)
            return None
        except Violation as v:
            if method in KNOWN_IGNORE:
                M.x = 0.0
                try:
                    conform(ex, hist[:2], dt, y)
                    return "data-ignored:" + method
                except Violation:
                    pass
            raise Violation("wrong-data", "%s: step with data %r is not the scheme with that data: %s" % (method, x, v.detail))
        finally:
            M.x = 0.0

    @staticmethod
    def record(spec, run):
        method, opts, t0, dt, n = spec["method"], spec["opts"], spec["t0"], spec["dt"], spec["n"]
        sysm, M = models.build(spec["model"])
        y0 = models.y0_of(spec["model"])
        base, e, _ = call("main", lambda: integ(sysm, y0, t0, dt, n, method, **opts))
        if e is None:
            log = []
            kw = dict(opts, callback_before_step=CB(log, "before", RETS[spec["ret"]]))
            if spec["after"]:
                kw["callback_after_step_accept"] = CB(log, "after", RETS["num"])
            r, e, _ = call("main", lambda: integ(sysm, y0, t0, dt, n, method, **kw))
        if e is not None:
            raise Violation("unexpected-exception", "%s with a recording callback (%s) raised %s: %s" % (method, spec["ret"], type(e).__name__, str(e)[:160]))
        for k in range(n + 1):
            if float(r.t[k]) != float(base.t[k]) or not same(r.y[k], base.y[k], method in ref.LEJA):
                raise Violation("callback-changed-result", "%s: record %d with a recording-only callback returning %s differs: %s" % (
                    method, k, spec["ret"], err(r.y[k], base.y[k])))
        d = run.stats()
        d.update(checks=n + 1, vt=abs(dt) * n, nontrivial=n > 0, nfail=0, sig=world.digest(method, spec["model"], opts, spec["ret"], dt, n))
        return d

    @staticmethod
    def steps(spec, run):
        method, opts, t0 = spec["method"], spec["opts"], spec["t0"]
        sysm, M = models.build(spec["model"])
        y0 = models.y0_of(spec["model"])
        Is = [make_integrator(sysm, method, t0, y0, opts) for _ in range(2)]
        hist = [[(float(t0), np.array(y0))] for _ in range(2)]
        pend = [None, None]
        seen = C14.watch(run)
        checks, nf, vt, sig = 0, 0, 0.0, []
        for k, op in enumerate(spec["ops"]):
            j = op["i"]
            if np.abs(hist[j][0][1]).max() > 1e3 * models.unit(M):
                continue
            if op["op"] == "accept":
                if pend[j] is None:
                    continue
                v, dt, x = pend[j]
                pend[j] = None
                C14.one(spec, M, method, opts, dt, hist[j], np.asarray(v.y), x)
                checks += 1
                Is[j].accept_step(v)
                hist[j].insert(0, (float(v.t), np.array(v.y)))
                vt += abs(dt)
                continue
            dt, x = op["dt"], op["x"]

            def st(I=Is[j]):
                return I.step(dt) if x is None else I.step(dt, frhs_kwargs=pack(x, spec["form"], k))
            fl = []
            for f in op.get("faults", []):
                f = dict(f)
                if "u" in f:
                    run.dec.quiet = True
                    T = make_integrator(sysm, method, hist[j][0][0], hist[j][0][1], opts)
                    _, _, c0 = call("main", lambda: st(T))
                    run.dec.quiet = False
                    tot = c0.lines if f["k"] == "intr" else c0.hits
                    if not tot:
                        continue
                    f["at"] = 1 + int(f["u"] * tot)
                fl.append(f)
            del seen[:]
            v, e, c = call("main", st, fl)
            checks += 1 + len(seen)
            sig.append((j, round(dt, 9), x, tuple(c.fired)))
            for kind, xs in seen:
                if float(xs) != float(x or 0.0):
                    raise Violation("wrong-data", "%s: a %s evaluation of a step with data %r saw %r" % (method, kind, x, float(xs)))
            if c.fired:
                nf += 1
                if e is None:
                    raise Violation("failure-swallowed", "%s: injected %s but the step returned" % (method, c.fired))
                continue
            if e is not None:
                if method in ref.LEJA and isinstance(e, RuntimeError):
                    continue
                raise Violation("unexpected-exception", "%s step with data raised %s: %s" % (method, type(e).__name__, str(e)[:160]))
            C14.one(spec, M, method, opts, dt, hist[j], np.asarray(v.y), x)
            pend[j] = (v, dt, x)
        d = run.stats()
        d.update(checks=checks, vt=vt, nontrivial=vt > 0, nfail=nf, sig=world.digest(method, spec["model"], opts, sig, d["trace"]))
        return d


def pack(x, form, k):
    if x is None:                              # nothing for this step
        return {} if form == "mixed" else None
    if form == "jnp":
        return {"x": jnp.asarray(x)}
    if form == "extra":
        return {"x": x, "more": jnp.ones(2)}
    if form == "mixed":
        return {"x": x} if k % 2 else {"x": jnp.asarray(x), "w": 1.0}
    return {"x": x}
