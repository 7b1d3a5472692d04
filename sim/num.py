"""Faults inside the numerics: C09 adaptive substeps, C10 bad evaluations, C11 bounded work."""
import math
import numpy as np
import scipy.linalg as sl
import jax.numpy as jnp
from . import gen, ref, models, seams, sched, world
from .world import Violation, bits, call, snap, make_integrator, close, err
from .hist import Engine, engine, eager_ctx, guard, finish, finite, conform, LEJA_RT, leja_rt

TAPPED = [m for m in ref.ALL]          # methods whose compiled kernels contain seams in `tap` models


def quiet_total(run, fn, kind=None):
    """model evaluations of a fault-free pass"""
    run.dec.quiet = True
    v, e, c = call("main", fn)
    run.dec.quiet = False
    return v, e, c


# ---------------------------------------------------------------------------
class C10:
    ID = "C10"

    @staticmethod
    def gen(i, rng, method, tier):
        mode = rng.choice(["tap", "tap", "plain"])
        eager = False
        if mode == "plain" and method not in ref.LEJA and rng.random() < 0.3:
            eager = True
        n = 2 if eager else rng.choice(gen.NS)
        m = gen.gen_model(rng, method, n=n, shipped=0.12 if mode == "plain" and not eager else 0.0, eager=eager)
        if m["model"] == "quad":
            m["tap"] = mode == "tap"
            if mode == "tap" and m.get("jac") == "custom_fd":
                m["jac"] = "custom"
        ops, dt = [], None
        for _ in range(rng.choice([0, 1, 1, 2]) if not eager else rng.choice([0, 1])):
            dt = gen.gen_dt(rng, method, dt)
            ops.append(dict(op="step", dt=dt))
            ops.append(dict(op="accept", which=-1))
        bad = []
        for _ in range(rng.randint(3, 7) if not eager else 2):
            f = gen.gen_fault(rng, method, ("poison",))
            if rng.random() < 0.35:
                f["kind"] = rng.choice(["frhs", "fjac", "fdt", "frhs_cached", "matvec", "matvec", "dense", "fl"])
            if rng.random() < 0.12:
                f["until"] = 1 << 30
            bad.append(dict(op="bad", dt=dt if dt and rng.random() < 0.6 else gen.gen_dt(rng, method, dt), faults=[f]))
        return dict(method=method, model=m, opts=gen.gen_opts(rng, method, n), t0=gen.gen_t0(rng), ops=ops + bad, eager=eager,
                    sched=gen.gen_sched(rng, method == "pexprb4"))

    @staticmethod
    def run(spec):
        with world.SimRun(spec.get("sched")) as run, eager_ctx(spec):
            e = engine(spec, run)
            e.run.seam.max_hits = 400000
            kinds, bad = {}, 0
            for op in spec["ops"]:
                if op["op"] == "step":
                    e.step(op)
                elif op["op"] == "accept":
                    e.accept(op)
                    if not finite(e):
                        break
                else:
                    dt = op["dt"]
                    with e.quiet():
                        T = e.fresh()
                        w, we, c0 = call("main", lambda: T.step(dt))
                    if we is not None or not np.all(np.isfinite(np.asarray(w.y))):
                        continue
                    fl = []
                    for f in op["faults"]:
                        f = dict(f)
                        tot = c0.kind_hits.get(f["kind"], 0) if f.get("kind") else c0.hits
                        if "u" in f:
                            if tot <= 0:
                                continue
                            f["at"] = 1 + int(f["u"] * tot)
                        fl.append(f)
                    if not fl:
                        continue
                    before = snap(e.I)
                    v, ex, c = call("main", lambda: e.I.step(dt), fl)
                    e.checks += 2
                    e.sig.append((round(dt, 9), tuple(c.fired), None if ex is None else type(ex).__name__))
                    if snap(e.I) != before:
                        raise Violation("step-left-trace", "step with a bad evaluation changed the reported state")
                    if c.fired:
                        bad += 1
                        for n, k in c.fired:
                            kinds[k] = kinds.get(k, 0) + 1
                    if ex is None:
                        y, yc = np.asarray(v.y), np.asarray(w.y)
                        if np.all(np.isfinite(y)):
                            sc = max(np.abs(yc).max(), np.abs(e.H[0][1]).max(), 1e-290)
                            tol = leja_rt(spec["model"]) if e.leja else 1e-10
                            d = np.abs(y - yc).max()
                            if not d <= tol * sc and not still_right(e, dt, y):
                                same = np.abs(y - e.H[0][1]).max() <= 1e-14 * sc
                                raise Violation("finite-lie", "%s dt=%g: %s in evaluation %s, yet the step returned finite values off by %.2e (scale %.1e)%s" % (
                                    e.method, dt, c.fired[:2], [f.get("at") for f in fl], d, sc, "; state silently unchanged" if same else ""))
                    # the fault is gone: the same step must work again
                    v, ex, c = call("main", lambda: e.I.step(dt))
                    e.checks += 1
                    if ex is not None:
                        raise Violation("no-recovery", "%s dt=%g: step after a bad evaluation raised %s: %s" % (e.method, dt, type(ex).__name__, str(ex)[:120]))
                    if not e.same(v, w):
                        raise Violation("no-recovery", "%s dt=%g: step after a bad evaluation differs from the fault-free one: %s" % (e.method, dt, err(v.y, w.y)))
            d = finish(e, run, bad > 0, dict(nfail=bad))
            d["kinds"] = kinds
            return d


def still_right(e, dt, y):
    """the step is as good as any: within the accuracy of the scheme's reference"""
    if e.M is None:
        return False
    with np.errstate(all="ignore"):
        h = e.H[:2]
        yr = ref.ref_step(e.M, e.method, e.opts, dt, h)
        if not np.all(np.isfinite(yr)):
            return False
        rt, sc = ref.ref_tol(e.M, e.method, e.opts, dt, h, yr)
    return bool(np.abs(y - yr).max() <= rt * sc)


# ---------------------------------------------------------------------------
WEIRD_DT = [0.0, -0.0, 1e-300, 5e-324, 1e-17, -0.1, -1.0, 5.0, 50.0, 1e3, 1e6, 1e12, 1e300, float("inf"), float("-inf"), float("nan")]
LEJA_WEIRD = [0.0, 1e-17, 2.0, 5.0, float("nan")]


class C11:
    ID = "C11"

    @staticmethod
    def gen(i, rng, method, tier):
        mode = rng.choice(["tap", "tap", "plain"])
        n = rng.choice(gen.NS)
        m = gen.gen_model(rng, method, n=n, shipped=0.1 if mode == "plain" else 0.0)
        if m["model"] == "quad":
            m["tap"] = mode == "tap"
            if mode == "tap" and m.get("jac") == "custom_fd":
                m["jac"] = "custom"
            if rng.random() < 0.25:                   # right-hand side exactly zero
                m["const"], m["force"], m["zero"] = 0.0, 0.0, 1
        leja = method in ref.LEJA
        opts = gen.gen_opts(rng, method, n)
        if leja:
            opts["n_leja"] = rng.choice([40, 60])
            opts["leja_tol"] = 1e-10
        ops, dt = [], gen.gen_dt(rng, method)
        for _ in range(rng.randint(1, 3)):
            c = rng.random()
            if c < 0.6:
                f = dict(k="poison", u=round(rng.random(), 4), val=rng.choice(["nan", "inf", "-inf", "huge", "huge", "big"]),
                         comp=rng.choice([-1, -1, 0, 1, 2, 3]))
                if rng.random() < 0.3:
                    f["kind"] = rng.choice(["frhs", "fjac", "fdt", "frhs_cached", "matvec", "dense", "fl"])
                if rng.random() < 0.5:
                    f["until"] = 1 << 30
                o = dict(op="wild", dt=dt, faults=[f])
            else:
                o = dict(op="wild", dt=rng.choice(LEJA_WEIRD if leja else WEIRD_DT))
            o["acc"] = rng.random() < 0.35
            ops.append(o)
            if rng.random() < 0.7:
                dt = gen.gen_dt(rng, method, dt)
                ops.append(dict(op="clean", dt=dt))
        ops.append(dict(op="clean", dt=dt))
        sp = dict(method=method, model=m, opts=opts, t0=gen.gen_t0(rng), ops=ops, sched=gen.gen_sched(rng, method == "pexprb4"))
        if method == "pexprb4" and rng.random() < 0.4:
            sp["stall"] = [rng.choice([1, 2]), rng.choice([50, 500])]
        return sp

    @staticmethod
    def run(spec):
        method, leja = spec["method"], spec["method"] in ref.LEJA
        stall = spec.get("stall")
        with world.SimRun(spec.get("sched"), lines=bool(stall), line_yield=bool(stall)) as run:
            e = engine(spec, run)
            if spec["model"].get("zero"):
                e.start(e.t0, np.zeros_like(e.y0))
                e.I.reset_ic(e.t0, jnp.asarray(e.y0))
            run.seam.max_hits = BUDGET(spec)
            most, wild, progress = 0, 0, 0
            tainted = False
            for op in spec["ops"]:
                dt = op["dt"]
                if op["op"] == "wild":
                    fl = []
                    for f in op.get("faults", []):
                        f = dict(f)
                        if "u" in f:
                            with e.quiet():
                                T = make_integrator(e.sys, method, e.I.time, e.I.state, e.opts)
                                _, _, c0 = call("main", lambda: T.step(dt))
                            tot = c0.kind_hits.get(f["kind"], 0) if f.get("kind") else c0.hits
                            if tot <= 0:
                                continue
                            f["at"] = 1 + int(f["u"] * tot)
                        fl.append(f)
                    if stall and "fixed" not in (spec.get("sched") or {}):
                        run.dec.stall = {len(run.sim.threads) + stall[0] - 1: stall[1]}
                    before = snap(e.I)
                    v, ex, c = call("main", lambda: e.I.step(dt), fl)
                    run.dec.stall = {}
                    run.sim.run_others()
                    e.checks += 1
                    wild += 1
                    most = max(most, c.hits)
                    e.sig.append((dt, tuple(c.fired[:1]), None if ex is None else type(ex).__name__, op.get("acc")))
                    if snap(e.I) != before:
                        raise Violation("step-left-trace", "%s: a step that was not accepted changed the reported state" % method)
                    if ex is None and op.get("acc"):
                        guard(lambda: e.I.accept_step(v), "accept_step")
                        tainted = True
                        e.vt += abs(dt) if math.isfinite(dt) else 0.0
                else:
                    # the faults have stopped
                    y = np.asarray(e.I.state)
                    if tainted and not (np.all(np.isfinite(y)) and np.abs(y).max() < 1e3 * models.unit(e.M) and math.isfinite(e.I.time) and abs(e.I.time) < 1e3):
                        guard(lambda: e.I.reset_ic(e.t0, jnp.asarray(e.y0)), "reset_ic")
                        tainted = False
                    t, y = float(e.I.time), np.array(e.I.state)
                    prev = e.prev_point() if hasattr(e, "prev_point") else None
                    v, ex, c = call("main", lambda: e.I.step(dt))
                    e.checks += 1
                    most = max(most, c.hits)
                    if leja and ex is not None:
                        with e.quiet():
                            _, ex2, _ = call("main", lambda: make_integrator(e.sys, method, t, y, e.opts).step(dt))
                        if ex2 is not None:
                            continue                    # this method cannot do this step at all
                    if ex is not None:
                        raise Violation("no-progress", "%s dt=%g: step after the faults stopped raised %s: %s" % (method, dt, type(ex).__name__, str(ex)[:140]))
                    if not np.all(np.isfinite(np.asarray(v.y))):
                        if np.all(np.isfinite(one_step_ref(e, dt, t, y))) and not tainted:
                            raise Violation("no-progress", "%s dt=%g: step after the faults stopped is not finite" % (method, dt))
                        continue
                    if not tainted and method not in ref.MULTISTEP:
                        ye = one_step_ref(e, dt, t, y)
                        rt, sc = ref.ref_tol(e.M, method, e.opts, dt, [(t, y)], ye) if e.M is not None else (1, 1)
                        if e.M is not None and np.all(np.isfinite(ye)) and np.abs(ye).max() < 1e6 * models.unit(e.M) and not leja and \
                                not np.abs(np.asarray(v.y) - ye).max() <= rt * sc:
                            raise Violation("no-progress", "%s dt=%g: step after the faults stopped is wrong: %s" % (method, dt, err(v.y, ye)))
                    progress += 1
                    guard(lambda: e.I.accept_step(v), "accept_step")
                    e.vt += abs(dt)
            d = finish(e, run, wild > 0 and progress > 0, dict(most=most, nfail=wild))
            return d


def one_step_ref(e, dt, t, y):
    if e.M is None:
        return np.zeros(1)
    with np.errstate(all="ignore"):
        return ref.ref_step(e.M, e.method, e.opts, dt, [(t, y)])


def BUDGET(spec):
    """bound on model evaluations of one operation"""
    n = int(spec["model"].get("n", 9))
    if spec["method"] in ref.LEJA:
        return 1002 * (2 * (int(spec["opts"].get("n_leja", 280)) + 8) + 4) + 1000
    return 400 + 60 * (n + 12)


# ---------------------------------------------------------------------------
class C09:
    ID = "C09"
    METHODS = list(ref.LEJA) + ["direct_re", "direct_im"]

    @staticmethod
    def gen(i, rng, method, tier):
        s = dict(method=method)
        n = rng.choice([2, 3, 5])
        kind = rng.choice(["symneg", "symneg", "chain"])
        if method in ("epi2_leja_im", "epi3_leja_im", "direct_im"):
            kind = rng.choice(["symneg", "chain", "stable", "block"])
        m = dict(model="quad", n=n, seed=rng.randrange(1 << 20), kind=kind, stiff=rng.choice([0.3, 1.0, 3.0, 10.0, 10.0, 40.0, 150.0]), nl=0.0, tap=True,
                 const=rng.choice([0.0, 0.4]), force=rng.choice([0.0, 0.7]), jac=rng.choice(["custom", "ad"]))
        if method in ("epi2_leja_im", "epi3_leja_im", "direct_im") and rng.random() < 0.2:
            # purely imaginary spectrum, interpolation points on the imaginary axis
            m["kind"] = "rot"
            m["stiff"] = rng.choice([0.3, 1.0, 3.0, 10.0])
            s["imag"] = rng.choice([0.0, 0.0, 1e-6])
        s["model"] = m

        def nanset():
            c = rng.random()
            if c < 0.35:
                return []
            lim = rng.choice([20, 100, 400, 1500])
            return sorted({rng.randint(1, lim) for _ in range(rng.choice([1, 2, 5, 12]))})
        if method.startswith("direct"):
            s["dt"] = gen.logu(rng, 0.02, 2.0)
            s["nl"] = rng.choice([30, 50, 80, 140])
            s["tol"] = rng.choice([1e-6, 1e-10, 1e-13])
            s["dd"] = rng.choice(["taylor", "taylor", "pade"])
            s["zeros"] = rng.choice([0, 2, 2])
            s["sub"] = rng.random() < 0.85
            ops = []
            for _ in range(rng.randint(2, 4)):
                c = rng.random()
                tau = rng.choice([1.0, 1.1, 0.5, 0.3, 0.1, 0.013, 1e-3 * 3, round(rng.random(), 3) + 0.001, 2.0])
                ops.append(dict(op="prop", tau=tau, skew=round(math.exp(rng.uniform(-2.3, 2.3)), 3) if rng.random() < 0.6 else 1.2,
                                c=rng.choice([0.0, 0.0, 0.5, 1.0]) if method == "direct_im" else 0.0, dt=s["dt"] * rng.choice([1, 1, 2, 0.3]),
                                faults=_nans(rng, nanset())))
            s["ops"] = ops
            return s
        opts = dict(n_leja=rng.choice([40, 60, 100]), leja_tol=rng.choice([1e-8, 1e-10, 1e-13]))
        if rng.random() < 0.3:
            opts["dd_method"] = "pade" if rng.random() < 0.5 else "taylor"
        if rng.random() < 0.2:
            opts["leja_substep"] = False
        if rng.random() < 0.4:
            opts["leja_n_zeros"] = rng.choice([0, 1, 3])
        if rng.random() < 0.5:
            opts["_skew"] = round(math.exp(rng.uniform(-2.3, 2.3)), 3)
            if method != "epi2_leja_re" and rng.random() < 0.5:
                opts["_c"] = rng.choice([0.3, 1.0])
        if "imag" in s:
            opts.update(_skew=rng.choice([0.8, 1.05, 1.3, 2.0]), _c=1.0)
        ops, dt = [], gen.logu(rng, 0.02, 1.0)
        for _ in range(rng.randint(2, 5)):
            if rng.random() < 0.6:
                dt = gen.logu(rng, 0.01, 2.0)
            o = dict(op="step", dt=dt, faults=_nans(rng, nanset()))
            o["acc"] = rng.random() < 0.7
            ops.append(o)
            if rng.random() < 0.1:
                ops.append(dict(op="reset"))
        s.update(opts=opts, ops=ops, t0=gen.gen_t0(rng))
        return s

    @staticmethod
    def run(spec):
        return C09.direct(spec) if spec["method"].startswith("direct") else C09.integ(spec)

    @staticmethod
    def integ(spec):
        method = spec["method"]
        with world.SimRun(None) as run:
            sysm, M = models.build(spec["model"])
            opts = {k: v for k, v in spec["opts"].items() if not k.startswith("_")}
            rho = float(np.abs(np.linalg.eigvals(M.A)).max())
            if "_skew" in spec["opts"]:
                opts["leja_a"] = -rho * spec["opts"]["_skew"]
                if "imag" in spec:
                    opts["leja_a"] = -rho * spec["imag"]
                if "_c" in spec["opts"]:
                    opts["leja_c"] = rho * spec["opts"]["_c"] * spec["opts"]["_skew"]
            y0 = models.y0_of(spec["model"])
            t0 = spec["t0"]
            I = make_integrator(sysm, method, t0, y0, opts)
            hist = [(float(t0), np.array(y0))]
            run.seam.max_hits = 1002 * (2 * (opts["n_leja"] + 12) + 4) + 1000
            checks, vt, sig, okk, raised, most, worst, nf, blind = 0, 0.0, [], 0, 0, 0, 0.0, 0, 0
            for op in spec["ops"]:
                if op["op"] == "reset":
                    I.reset_ic(t0, jnp.asarray(y0))
                    hist = [(float(t0), np.array(y0))]
                    continue
                dt = op["dt"]
                v, e, c = call("main", lambda: I.step(dt), op["faults"])
                checks += 1
                most = max(most, c.hits)
                nf += bool(c.fired)
                sig.append((dt, len(c.fired), None if e is None else type(e).__name__))
                if e is not None:
                    progress9(spec, e, c, method, "dt=%g opts=%s" % (dt, opts), opts.get("leja_substep", True), dt * rho * max(1.0, spec["opts"].get("_skew", 1.2)))
                    raised += 1
                    continue
                y = np.asarray(v.y)
                if not np.all(np.isfinite(y)):
                    # a bad evaluation may surface as a visibly bad state, never as a converged-looking one
                    if not c.fired:
                        raise Violation("not-covered", "%s dt=%g returned non-finite values without a fault" % (method, dt))
                    continue
                okk += 1
                r = leja_ref(M, method, dt, hist)
                tol, sc = leja_tol(M, opts["leja_tol"], dt, hist, r)
                if method != "epi2_leja_re" and dt * opts.get("leja_c", 0.0) > 0.7 * opts["n_leja"]:
                    # more half-waves along the interval than points: no estimate made from the points can be believed
                    blind += 1
                    if op["acc"]:
                        break
                    continue
                d = float(np.abs(y - r).max())
                worst = max(worst, d / (tol * sc))
                if not d <= tol * sc:
                    raise Violation("not-covered", "%s dt=%g opts=%s rho*dt=%.3g: result off by %.2e (allowed %.1e) from the propagation over the whole step (faults %s)" % (
                        method, dt, opts, rho * dt, d, tol * sc, c.fired[:3]))
                if op["acc"]:
                    I.accept_step(v)
                    hist.insert(0, (float(v.t), y))
                    vt += dt
                    if np.abs(y).max() > 1e6:
                        break
            d = run.stats()
            d.update(checks=checks, vt=vt, nontrivial=okk > 0 and nf > 0 or raised > 0, nfail=nf, raised=raised, blind=blind, most=most, worst=worst,
                     sig=world.digest(spec["model"], opts, sig))
            return d

    @staticmethod
    def direct(spec):
        from ormatex_py import matexp_leja as ml
        with world.SimRun(None) as run:
            sysm, M = models.build(spec["model"])
            y = jnp.asarray(models.y0_of(spec["model"]))
            rho = float(np.abs(np.linalg.eigvals(M.A)).max())
            re = spec["method"] == "direct_re"
            run.seam.max_hits = 1002 * (2 * (spec["nl"] + 12) + 4) + 1000
            checks, vt, sig, okk, raised, most, worst, nf, blind = 0, 0.0, [], 0, 0, 0, 0.0, 0, 0
            t = 0.3
            for op in spec["ops"]:
                dt = op["dt"]
                run.dec.quiet = True
                J = sysm.fjac(t, y)
                vb = [jnp.zeros(y.shape), dt * J._frhs_cached(), dt ** 2 * J._fdt()]
                lo, vec, n = ml.build_a_tilde(J, dt, vb)
                run.dec.quiet = False
                a = -dt * rho * op["skew"]
                if re:
                    lx = jnp.asarray(ml.gen_leja_fast(a=-2, b=2, n=spec["nl"]))
                    fn = lambda: ml.real_leja_expmv_substep(lo, op["tau"], vec, lx, n, a / 2, abs(a) / 4, spec["tol"], spec["sub"], dd_method=spec["dd"])
                else:
                    c = op["c"] * abs(a)
                    if "imag" in spec:
                        a, c = -dt * rho * spec["imag"], abs(a)
                    c_im = c
                    lx, nr, scale, shift = ml.gen_leja_conjugate(n=spec["nl"], a=a, b=0.0, c=c)
                    fn = lambda: ml.complex_conj_leja_expmv_substep(lo, op["tau"], vec, jnp.asarray(lx), nr, n, shift, scale, spec["tol"], spec["sub"],
                                                                    leja_n_zeros=spec["zeros"], dd_method=spec["dd"])
                v, e, c = call("main", fn, op["faults"])  # noqa: c is now the call
                checks += 1
                most = max(most, c.hits)
                nf += bool(c.fired)
                sig.append((dt, op["tau"], len(c.fired), None if e is None else type(e).__name__))
                if e is not None:
                    progress9(spec, e, c, spec["method"], "tau=%g skew=%g c=%g dt*rho=%.3g tol=%g dd=%s" % (op["tau"], op["skew"], op["c"], dt * rho, spec["tol"], spec["dd"]),
                              spec["sub"], dt * rho * max(1.0, op["skew"]))
                    raised += 1
                    continue
                w, _, conv, mx = v
                if not bool(conv):
                    if spec["sub"]:
                        raise Violation("not-covered", "substepping returned an unconverged result")
                    raised += 1
                    continue
                okk += 1
                N = np.zeros((n + 2, n + 2))
                N[:n, :n] = dt * M.A
                N[:n, n:] = np.stack([np.asarray(vb[2]), np.asarray(vb[1])], 1)
                N[n, n + 1] = 1.0
                r = (sl.expm(N) @ np.asarray(vec))[:n]
                sc = max(1.0, np.abs(np.asarray(vec)).max(), np.abs(r).max(), np.abs(N).max())
                tol = TOL9(spec["tol"], dt * rho)
                if not re and c_im > 0.7 * spec["nl"]:
                    blind += 1
                    continue
                d = float(np.abs(np.asarray(w) - r).max())
                worst = max(worst, d / (tol * sc))
                if not d <= tol * sc:
                    raise Violation("not-covered", "%s tau=%g skew=%g c=%g dt*rho=%.3g tol=%g: result off by %.2e (allowed %.1e) from the propagation over the whole step (faults %s)" % (
                        spec["method"], op["tau"], op["skew"], op["c"], dt * rho, spec["tol"], d, tol * sc, c.fired[:3]))
                vt += dt
            d = run.stats()
            d.update(checks=checks, vt=vt, nontrivial=okk > 0, nfail=nf, raised=raised, blind=blind, most=most, worst=worst, sig=world.digest(spec["model"], sig))
            return d


def _nans(rng, at):
    return [dict(k="poison", kind="matvec", at=-1, set=at, val=rng.choice(["nan", "nan", "inf"]), comp=-1 if rng.random() < 0.7 else rng.randint(0, 4))] if at else []


def leja_ref(M, method, dt, hist):
    with np.errstate(all="ignore"):
        return ref.ref_step(M, method, {}, dt, hist)


def progress9(spec, e, c, method, what, sub, z):
    """refusing is the documented answer to failed convergence; it is not one to give when nothing is in the way"""
    if not isinstance(e, (RuntimeError, ArithmeticError)):
        raise Violation("unexpected-exception", "%s %s raised %s: %s" % (method, what, type(e).__name__, str(e)[:160]))
    if sub and not c.fired and z <= 5.0:
        raise Violation("no-result", "%s %s raised %s although no attempt was disturbed and the step is small (|dt lambda| about %.2g)" % (method, what, str(e)[:80], z))


def TOL9(tol, z):
    return max(2e2 * tol, 2e-10) * (1 + z)


def leja_tol(M, tol, dt, hist, r):
    t, y = hist[0]
    z = dt * float(np.abs(np.linalg.eigvals(M.A)).max())
    sc = max(1.0, np.abs(y).max(), np.abs(r).max(), dt * np.abs(M.f(t, y)).max(), dt * dt * np.abs(M.ft(t, y)).max())
    return TOL9(tol, z), sc
