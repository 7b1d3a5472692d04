"""C15 (exactness on linear problems and equilibria) and C16 (shipped transport problems) over faulted step histories."""
import numpy as np
import scipy.linalg as sl
import jax.numpy as jnp
from . import gen, ref, models, world, transport
from .world import Violation, bits, make_integrator
from .hist import Engine, engine, guard, finite, has_lines, finish, eager_ctx, conform

CX = ("exprb2_pfd", "exp_pfd", "epi2_leja_re")     # real spectrum only


def histops(rng, method, n, dt_of, neg=False):
    """accepted steps between discarded and failing ones, crashes and returns to earlier records"""
    ops, k = [], 0
    for _ in range(n):
        dt = dt_of()
        if neg and rng.random() < 0.15:
            dt = -dt
        c = rng.random()
        if c < 0.25:
            ops.append(dict(op="step", dt=dt * rng.choice([2.0, 0.5, 1.0, -1.0 if neg else 1.0])))
        elif c < 0.5:
            ops.append(dict(op="step", dt=dt, faults=[gen.gen_fault(rng, method, ("exc", "intr"))]))
        ops.append(dict(op="step", dt=dt))
        ops.append(dict(op="accept", which=-1))
        k += 1
        c = rng.random()
        if c < 0.1:
            ops.append(dict(op="crash"))
        elif c < 0.2:
            ops.append(dict(op="rewind", k=rng.randint(0, k)))
    return ops


def drive(e, spec, on_accept):
    """run the operations; on_accept(index into e.all, hist, dt, y)"""
    e.all = [(e.t0, np.array(e.y0))]
    cur = [0]
    for op in spec["ops"]:
        if op["op"] == "step":
            e.step(op)
        elif op["op"] in ("crash", "rewind"):
            k = cur[0] if op["op"] == "crash" else max(0, len(e.all) - 1 - op["k"])
            t, y = e.all[k]
            cur[0] = k
            if op["op"] == "crash":          # only the recorded (t, y) survives
                e.start(t, y)
                e.I = make_integrator(e.sys, e.method, t, jnp.asarray(y), e.opts)
            else:                            # the same integrator goes back to an earlier record
                guard(lambda: e.I.reset_ic(t, jnp.asarray(y)), "reset_ic")
                e.start(t, y)
            e.sig.append(op["op"])
        elif e.props:
            hist = [e.H[0]] + e.H[1:2]
            v, dt, _, _ = e.props[op["which"] % len(e.props)]
            e.accept(op)
            if not finite(e):
                raise Violation("not-finite", "%s: state became non-finite without a bad model evaluation" % e.method)
            e.all.append((e.I.time, np.array(v.y)))
            on_accept(cur[0], len(e.all) - 1, hist, dt, np.asarray(v.y))
            cur[0] = len(e.all) - 1


def transport_spec(rng, method, models_=("sem", "semna", "rad2", "rad3", "rad9")):
    m = rng.choice(models_)
    p = rng.choice([1, 1, 2, 3, 4])
    s = dict(model=m, p=p, ref=rng.choice([1, 2]) if m != "rad9" else 1, nu=rng.choice([0.02, 0.1]), vel=rng.choice([0.5, 0.25]), tau=rng.choice([0.0, 0.0, 0.5]),
             y0seed=rng.randrange(1 << 20))
    if m == "rad9":
        s["width"] = 5.0
    if m != "semna" and rng.random() < 0.25:
        s["vary"] = rng.choice([0.3, -0.6])
    if p >= 3:
        s["ref"] = 1
    if m != "semna" and rng.random() < 0.4:
        s["per"] = 1
        if m in ("rad2", "rad3") and rng.random() < 0.6:
            s["closed"] = rng.randrange(1 << 10)
    if rng.random() < 0.3:
        s["before"] = [rng.choice([1, 2, 3, 3, 4])]
    if rng.random() < 0.25:
        s["grade"] = rng.choice([0.8, 1.4])
    c = rng.random()
    if c < 0.12:
        s["vel"] = 0.0
    elif c < 0.3 and s.get("per"):
        s["vel"] = -s["vel"]
    if method in ref.LEJA:
        s.update(nu=0.3, vel=0.1, tau=0.0, p=min(p, 2))
        s.pop("grade", None)
    return s


class C15:
    ID = "C15"
    METHODS = [m for m in ref.ALL]

    @staticmethod
    def gen(i, rng, method, tier):
        modes = ["affine", "ramp", "steady", "steady", "sem", "bateman"]
        if method == "rk4":
            modes = ["steady"]
        elif method == "exp_pfd":
            modes = ["affine", "bateman"]
        elif method in ("exp1", "exp1_dense"):
            modes.remove("ramp")
        elif method == "exprb2_pfd":
            modes.remove("sem")
        mode = rng.choice(modes)
        s = dict(method=method, mode=mode, t0=gen.gen_t0(rng))
        T, k = rng.choice([0.3, 1.0, 2.0]), rng.randint(2, 6)
        if mode == "sem":
            m = transport_spec(rng, method, ("sem",))
            T = 0.3
        elif mode == "bateman":
            m = dict(model="bateman", n=rng.choice(gen.NS), seed=rng.randrange(1 << 20), open=rng.random() < 0.5)
        else:
            kinds = ["symneg", "chain"] if method in CX else ["symneg", "stable", "block", "chain"] if method in ref.LEJA else ["symneg", "stable", "rot", "block", "chain"]
            m = dict(model="quad", n=rng.choice(gen.NS), seed=rng.randrange(1 << 20), kind=rng.choice(kinds), stiff=rng.choice([0.3, 1.0, 3.0]),
                     jac=rng.choice(["custom", "ad"]), lmode="A", const=0.0 if method == "exp_pfd" else rng.choice([0.0, 0.5]))
            if mode == "ramp":
                m.update(force=1e5 * rng.choice([0.3, 1.0]), w=1e-5)
                s["t0"] = round(rng.uniform(-2, 2), 3)
            if mode == "steady":
                m.update(steady=1, nl=rng.choice([0.0, 0.2]) if method != "exprb2_pfd" else 0.0, lmode=rng.choice(["A", "diag", "near", "zero"]))
                if method in ref.SPLIT and rng.random() < 0.3:
                    m["ldep"] = True
            if method not in ref.LEJA and rng.random() < 0.15:
                m["unit"] = rng.choice([1e-14, 1e-5, 1e6])
            if rng.random() < 0.12:
                m["plain"] = 1
        s["model"] = m
        s["ops"] = histops(rng, method, k, lambda: T / k * rng.uniform(0.3, 1.5), neg=method not in ref.LEJA + ["exp_pfd", "exprb2_pfd"] and m["model"] != "sem")
        s["opts"] = {"_np": True} if rng.random() < 0.1 else {}
        if mode == "ramp" and (m.get("unit", 1.0) < 1.0 or rng.random() < 0.3):
            s["opts"]["tol_fdt"] = 0.0     # the default threshold is absolute: it would ignore so small a time derivative
        s["sched"] = gen.gen_sched(rng, method == "pexprb4")
        return s

    @staticmethod
    def run(spec):
        method, mode = spec["method"], spec["mode"]
        with world.SimRun(spec.get("sched"), lines=has_lines(spec)) as run, eager_ctx(spec):
            e = engine(spec, run)
            M, y0, t0 = e.M, np.array(e.y0), e.t0
            n = M.n
            E = {0: 0.0}                     # admissible error of each record: local accuracy, propagated by the exact flow
            worst = [0.0]
            A = M.J(t0, y0)
            c = np.zeros(n) if mode == "steady" else getattr(M, "c", np.zeros(n))
            g = M.ft(t0, y0) if mode == "ramp" else np.zeros(n)

            def exact(t):
                if mode == "steady":
                    return y0
                h = t - t0
                Z = np.zeros((n + 2, n + 2))
                u = max(np.abs(y0).max(), np.abs(c).max(), np.abs(g).max()) or 1.0
                Z[:n, :n], Z[:n, n], Z[:n, n + 1], Z[n + 1, n] = A * h, (c + g * t0) / u * h, g / u * h, h
                # columns: constant part (value at t0) and ramp (time since t0)
                return (sl.expm(Z) @ np.concatenate([y0 / u, [1.0, 0.0]]))[:n] * u

            def on_accept(i0, i1, hist, dt, y):
                with np.errstate(all="ignore"):
                    yr = ref.ref_step(M, method, e.opts, dt, hist)
                    rt, sc = ref.ref_tol(M, method, e.opts, dt, hist, yr)
                    grow = np.linalg.norm(sl.expm(A * dt), np.inf)
                    if mode == "steady":
                        # errors of the state also move the equilibrium of the linearisation
                        grow = grow * (1 + abs(dt) * np.linalg.norm(A, np.inf)) * 4
                E[i1] = E[i0] * grow + rt * sc
                d = np.abs(y - exact(e.I.time)).max()
                e.checks += 1
                worst[0] = max(worst[0], d / E[i1])
                if not d <= E[i1]:
                    raise Violation("not-exact", "%s: %s problem, state at t=%g (%g after the start) is off by %.3e (allowed %.1e, size %.1e)" % (
                        method, mode, e.I.time, e.I.time - t0, d, E[i1], np.abs(y).max()))
            drive(e, spec, on_accept)
            return finish(e, run, len(e.all) > 1, dict(worst=float(worst[0])))


class C16:
    ID = "C16"
    METHODS = [m for m in ref.ALL if m not in ("exp_pfd", "exprb2_pfd")]

    @staticmethod
    def gen(i, rng, method, tier):
        m = transport_spec(rng, method)
        c = rng.random()
        if c < 0.2:
            m = dict(model="nonlin", n_phi=rng.choice([0.0, 1e2, 1e8]), y0seed=rng.randrange(1 << 20))
            if rng.random() < 0.3:
                m["tank_vol"] = rng.choice([20.0, 300.0])
            if method in ref.LEJA or rng.random() < 0.5:
                m = dict(model="clos", ma=rng.choice([1.0, 2.0]), mb=rng.choice([1.0, 2.0]), y0seed=rng.randrange(1 << 20))
        elif c < 0.3:
            m = dict(model=rng.choice(["lv", "lvna"]), y0seed=rng.randrange(1 << 20))
        s = dict(method=method, model=m, t0=gen.gen_t0(rng), opts=gen.gen_opts(rng, method, 4, 0.7), sched=gen.gen_sched(rng, method == "pexprb4"))
        big = m["model"] in models.TRANSPORT
        if "leja_tol" in s["opts"]:
            s["opts"].pop("leja_tol")
        hi = 0.05 if big and method == "rk4" else 0.3
        s["ops"] = histops(rng, method, rng.randint(2, 4), lambda: gen.logu(rng, 0.01, hi))
        return s

    @staticmethod
    def run(spec):
        method, m = spec["method"], spec["model"]
        with world.SimRun(spec.get("sched"), lines=has_lines(spec)) as run, eager_ctx(spec):
            e = engine(spec, run)
            M, worst = e.M, [0.0]
            bd = getattr(M, "bd", None)
            closed = m.get("per") and (m["model"] == "sem" or "closed" in m)
            full = "max_krylov_dim" not in e.opts and "iom" not in e.opts

            def on_accept(i0, i1, hist, dt, y):
                worst[0] = max(worst[0], conform(e, hist, dt, y))
                y0 = np.asarray(hist[0][1])
                sc = max(np.abs(y0).max(), np.abs(y).max())
                nJ = 1 + abs(dt) * np.linalg.norm(M.J(hist[0][0], y0), 1)
                if m["model"] in models.TRANSPORT and bd is not None and m["model"] != "semna":
                    N = len(M.xs)
                    d = np.abs((y - y0)[bd::N]).max()
                    e.checks += 1
                    if not d <= 1e-11 * nJ * sc * (1e3 if method in ref.LEJA else 1):
                        raise Violation("inflow-moved", "%s: the constant inflow value changed by %.3e in a step of dt=%g" % (method, d, dt))
                if closed:
                    k = transport.NSPEC.get(m["model"], 1)
                    w = np.tile(M.Ml, k)
                    d = abs(w @ y - w @ y0)
                    e.checks += 1
                    if not d <= 1e-11 * nJ * (w @ np.abs(y) + w @ np.abs(y0)) * (1e3 if method in ref.LEJA else 1):
                        raise Violation("not-conserved", "%s: the total amount in a closed periodic loop changed by %.3e of %.3e in a step of dt=%g" % (method, d, w @ y0, dt))
            drive(e, spec, on_accept)
            return finish(e, run, len(e.all) > 1, dict(worst=float(worst[0])))
