"""C05: schedules of the parallel stages.  C06: isolation of integrators."""
import copy
import numpy as np
import jax.numpy as jnp
from . import gen, ref, models, seams, sched, world
from .world import Violation, bits, call, snap, make_integrator, close, err
from .hist import eager_ctx, guard, LEJA_RT, conform


class C05:
    ID = "C05"
    METHODS = ["pexprb4"]

    @staticmethod
    def gen(i, rng, method, tier):
        eager = rng.random() < 0.15
        m = gen.gen_model(rng, method, n=2 if eager else rng.choice([2, 3]), shipped=0.1, eager=eager,
                          jac=rng.choice(["custom", "custom", "ad", "custom_fd"]))
        if m["model"] in ("sem", "semna", "nonlin"):
            m = dict(model="lvna", y0seed=rng.randrange(1 << 20))
        steps, dt = [], None
        for _ in range(rng.randint(1, 2) if eager else rng.randint(2, 5)):
            dt = gen.gen_dt(rng, method, dt)
            o = dict(dt=dt)
            c = rng.random()
            if c < 0.45:
                f = gen.gen_fault(rng, method, ("exc", "exc", "intr", "intr", "intr_block", "thr"))
                if f["k"] == "exc" and rng.random() < 0.6:
                    f["kind"] = rng.choice(["frhs", "frhs", "fdt", "matvec"] if eager else ["frhs", "frhs", "fdt"])
                o["faults"] = [f]
            if rng.random() < 0.3:
                o["stall"] = [rng.choice([1, 2]), rng.choice([5, 50, 500, 5000])]
            o["accept"] = rng.random() < 0.7
            steps.append(o)
        return dict(method=method, model=m, opts=gen.gen_opts(rng, method, 3), t0=gen.gen_t0(rng), ops=steps, eager=eager,
                    sched=gen.gen_sched(rng), fresh=rng.random() < 0.3)

    @staticmethod
    def run(spec):
        with world.SimRun(spec.get("sched"), lines=True, line_yield=True) as run, eager_ctx(spec):
            sysm, M = models.build(spec["model"])
            method, opts = spec["method"], spec.get("opts", {})
            t0, y0 = spec["t0"], models.y0_of(spec["model"])
            I = make_integrator(sysm, method, t0, y0, opts)
            base_threads = len(run.sim.threads)
            hist = [(float(t0), np.array(y0))]
            sig, checks, vt, nfail, preempt = [], 0, 0.0, 0, 0
            for op in spec["ops"]:
                dt = op["dt"]
                t, y = hist[0]
                # the same step, one stage after the other
                run.dec.quiet = True
                T = make_integrator(sysm, method, t, y, opts)
                w = guard(lambda: T.step(dt), "sequential step")
                fl = []
                for f in op.get("faults", []):
                    f = dict(f)
                    if "u" in f:
                        _, _, c0 = call("main", lambda: make_integrator(sysm, method, t, y, opts).step(dt))
                        tot = c0.lines if f["k"] == "intr" else (c0.kind_hits.get(f["kind"], 0) if f.get("kind") else c0.hits)
                        if tot <= 0:
                            continue
                        f["at"] = 1 + int(f["u"] * tot)
                    fl.append(f)
                del T
                run.sim.run_others()
                run.dec.quiet = False
                if spec.get("fresh"):
                    I = make_integrator(sysm, method, t, y, opts)
                    base_threads = len(run.sim.threads)
                if op.get("stall") and "fixed" not in (spec.get("sched") or {}):
                    run.dec.stall = {base_threads + op["stall"][0] - 1: op["stall"][1]}
                before = snap(I)
                s0 = run.sim.switches
                v, e, c = call("main", lambda: I.step(dt), fl)
                run.dec.stall = {}
                preempt += run.sim.switches - s0
                idle = run.sim.run_others()
                checks += 2
                fired = [f[0] for f in c.fired]
                thr = "thr" in fired
                if not thr and (c.late_hits or c.late_lines or not idle):
                    raise Violation("stage-outlived-step", "%d model evaluations and %d lines of stage code ran after the step had %s (faults %s)" % (
                        c.late_hits, c.late_lines, "raised " + type(e).__name__ if e is not None else "returned", c.fired))
                if snap(I) != before:
                    raise Violation("step-left-trace", "step changed the reported state")
                sig.append((round(dt, 9), tuple(c.fired), None if e is None else type(e).__name__))
                if fired:
                    nfail += 1
                    if e is None:
                        raise Violation("failure-swallowed", "injected %s but the step returned" % (c.fired,))
                    ok = any(n == "thr" and isinstance(e, RuntimeError) or n == "intr_block" and isinstance(e, KeyboardInterrupt) or
                             (":" in n and isinstance(e, seams.EXC.get(n.split(":")[-1], ()))) for n in fired)
                    if not ok:
                        raise Violation("failure-changed", "injected %s, caller saw %s: %s" % (fired, type(e).__name__, str(e)[:100]))
                    v, e, c = call("main", lambda: I.step(dt))        # retry after the fault
                    run.sim.run_others()
                if e is not None:
                    raise Violation("unexpected-exception", "step dt=%g raised %s: %s" % (dt, type(e).__name__, str(e)[:160]))
                if bits(v.y) != bits(w.y) or v.t != w.t:
                    raise Violation("schedule-dependent", "step dt=%g differs from its sequential execution: %s" % (dt, err(v.y, w.y)))
                if op.get("accept"):
                    guard(lambda: I.accept_step(v), "accept_step")
                    hist.insert(0, (float(v.t), np.array(v.y)))
                    vt += abs(dt)
                    if not np.all(np.isfinite(hist[0][1])) or np.abs(hist[0][1]).max() > 1e6 * models.unit(M):
                        break
            d = run.stats()
            d.update(checks=checks, vt=vt, nontrivial=preempt > 2 * len(spec["ops"]), nfail=nfail, sig=world.digest(spec["model"], sig, d["trace"]))
            return d


class C06:
    ID = "C06"

    @staticmethod
    def gen(i, rng, method, tier):
        k = rng.choice([2, 2, 2, 3, 4] if tier == "thorough" else [2, 2, 2, 3])
        share_sys = rng.random() < 0.5
        cl = []
        m0 = gen.gen_model(rng, method, shipped=0.1)
        if m0["model"] in ("sem", "semna", "nonlin"):
            m0 = dict(model="lv", y0seed=1)
        dt0 = gen.gen_dt(rng, method)
        for j in range(k):
            mj = method
            if j and rng.random() < 0.3:
                mj = rng.choice([x for x in ref.ALL if (x in ref.SPLIT) == (method in ref.SPLIT)] if share_sys else ref.ALL)
            if share_sys and (j == 0 or mj == method):
                m = m0
            elif share_sys:
                m, mj = m0, method
            else:
                m = gen.gen_model(rng, mj, shipped=0.1)
                if m["model"] in ("sem", "semna", "nonlin"):
                    m = dict(model="lv", y0seed=1)
                if m.get("model") == "quad" and m0.get("model") == "quad" and rng.random() < 0.6 and mj == method:
                    m["n"] = m0["n"]          # same shapes: same compiled kernels
            ops, dt = [], dt0
            for _ in range(rng.randint(2, 4)):
                o = dict(op="step", dt=dt)
                c = rng.random()
                if c < 0.15:
                    o["faults"] = [dict(k="exc", at=rng.randint(1, 4), cls=rng.choice(seams.SEAM_EXC))]
                elif c < 0.25:
                    o["faults"] = [dict(k="intr", at=rng.randint(1, 60), cls="KeyboardInterrupt")]
                ops.append(o)
                if rng.random() < 0.85:
                    ops.append(dict(op="accept"))
                if rng.random() < 0.1:
                    ops.append(dict(op="reset", t0=gen.gen_t0(rng)))
                if rng.random() < 0.1:
                    ops.append(dict(op="new"))
                if rng.random() < 0.12:
                    ops.append(dict(op="drive", dt=dt, n=rng.randint(1, 3)))
                if rng.random() < 0.5:
                    dt = gen.gen_dt(rng, mj, dt0)
            cl.append(dict(method=mj, model=m, opts=gen.gen_opts(rng, mj, 3) if rng.random() < 0.5 else {}, t0=gen.gen_t0(rng) if rng.random() < 0.5 else 0.0, ops=ops))
        mode = rng.choice(["threads", "threads", "interleave"])
        return dict(method=method, clients=cl, share=share_sys, share_y=share_sys and rng.random() < 0.7, mode=mode, npy=rng.random() < 0.4,
                    sched=gen.gen_sched(rng))

    @staticmethod
    def run(spec):
        from ormatex_py.integrate_wrapper import integrate
        with world.SimRun(spec.get("sched"), lines=True, line_yield=True) as run:
            cl = spec["clients"]
            shared = models.build(cl[0]["model"]) if spec["share"] else None
            y_shared = models.y0_of(cl[0]["model"])
            checks, vt, sig = 0, 0.0, []

            def client(j, role, system, y0, out, keep):
                """generator performing one client's operations; one yield per operation"""
                c = cl[j]
                opts = copy.deepcopy(c["opts"])
                arr = y0 if spec["npy"] else jnp.asarray(y0)
                opts0 = repr(opts)
                I = make_integrator(system, c["method"], c["t0"], arr, opts) if not spec["npy"] else _mk_np(system, c["method"], c["t0"], arr, opts)
                keep.append(("y0", arr, bits(arr)))
                v = None
                for op in c["ops"]:
                    if op["op"] == "step":
                        v, e, cx = call(role, lambda: I.step(op["dt"]), op.get("faults", []))
                        out.append(("step", op["dt"], None if e is None else type(e).__name__,
                                    None if v is None else (float(v.t), np.array(v.y)), bool(cx.fired)))
                        if v is not None:
                            keep.append(("result", v.y, bits(v.y)))
                    elif op["op"] == "accept":
                        if v is None:
                            continue
                        _, e, cx = call(role, lambda: I.accept_step(v))
                        out.append(("accept", None if e is None else type(e).__name__, float(I.time), np.array(I.state)))
                        v = None
                    elif op["op"] == "drive":          # a whole run of the driver in between
                        r, e, cx = call(role, lambda: integrate(system, jnp.asarray(y0), c["t0"], op["dt"], op["n"], c["method"], **opts))
                        out.append(("drive", None if e is None else type(e).__name__, *([] if r is None else [tuple(map(float, r.t)), np.array([np.array(y) for y in r.y])])))
                    elif op["op"] == "reset":
                        _, e, cx = call(role, lambda: I.reset_ic(op["t0"], jnp.asarray(y0)))
                        out.append(("reset", None if e is None else type(e).__name__, float(I.time), np.array(I.state)))
                        v = None
                    else:                      # discard the integrator, build another one
                        I = make_integrator(system, c["method"], c["t0"], jnp.asarray(y0), opts)
                        out.append(("new", float(I.time), np.array(I.state)))
                        v = None
                    yield
                if repr(opts) != opts0:
                    raise Violation("options-modified", "%s: options %s became %s" % (c["method"], opts0, opts))

            # solo runs, each on its own system
            solo, mirrors = [], []
            run.dec.quiet = True
            run.seam.yield_on_line = False
            for j in range(len(cl)):
                system, M = models.build(cl[j]["model"])
                mirrors.append(M)
                o, keep = [], []
                run.sim.main.role = "c%d" % j
                for _ in client(j, "c%d" % j, system, models.y0_of(cl[0 if spec["share_y"] else j]["model"]), o, keep):
                    pass
                solo.append(o)
            run.sim.main.role = "main"
            run.sim.run_others()
            run.dec.quiet = False
            run.seam.yield_on_line = True
            # together
            got = [[] for _ in cl]
            keep = []
            errs = []
            systems = [shared[0] if spec["share"] else models.build(c["model"])[0] for c in cl]
            ys = [y_shared if spec["share_y"] else models.y0_of(c["model"]) for c in cl]
            s0 = run.sim.switches
            if spec["mode"] == "threads":
                ths = []
                for j in range(len(cl)):
                    def body(j=j):
                        try:
                            for _ in client(j, "c%d" % j, systems[j], ys[j], got[j], keep):
                                pass
                        except sched.SimKilled:
                            raise
                        except BaseException as x:
                            errs.append(x)
                    th = sched.SimThread(target=body, name="client%d" % j)
                    run.sim.main.role = "c%d" % j
                    th.start()
                    ths.append(th)
                run.sim.main.role = "main"
                for th in ths:
                    th.join()
            else:
                gens = [client(j, "c%d" % j, systems[j], ys[j], got[j], keep) for j in range(len(cl))]
                order = list(range(len(cl)))
                import random
                r = random.Random(spec.get("order", (spec.get("sched") or {}).get("seed", 0)))
                while order:
                    j = r.choice(order)
                    run.sim.main.role = "c%d" % j
                    try:
                        next(gens[j])
                    except StopIteration:
                        order.remove(j)
                run.sim.main.role = "main"
            switches = run.sim.switches - s0
            for x in errs:
                raise x
            run.sim.run_others()
            # compare
            for j, c in enumerate(cl):
                if len(got[j]) != len(solo[j]):
                    raise Violation("interference", "client %d (%s): %d operations instead of %d" % (j, c["method"], len(got[j]), len(solo[j])))
                M = mirrors[j]
                hist = [(float(c["t0"]), np.array(ys[j]))]
                pend = None
                for a, b in zip(got[j], solo[j]):
                    checks += 1
                    if not _same(a, b, c["method"] in ref.LEJA):
                        raise Violation("interference", "client %d of %d (%s, %s): %s differs from its solo run: %s vs %s" % (
                            j, len(cl), c["method"], spec["mode"], a[0], _short(a), _short(b)))
                    if a[0] == "step" and a[3] is not None:
                        pend = (a[1], a[3])
                        vt += abs(a[1])
                    elif a[0] == "accept" and pend is not None:
                        e = _E(M, c["method"], c["opts"])
                        if np.abs(hist[0][1]).max() < 1e4 * models.unit(M):
                            conform(e, hist[:2], pend[0], pend[1][1])
                            checks += e.checks
                        hist.insert(0, pend[1])
                    elif a[0] in ("reset", "new"):
                        hist = [(a[-2], np.array(ys[j]))]
                sig.append((c["method"], [x[:3] if x[0] == "step" else x[0] for x in got[j]]))
            for what, arr, b in keep:
                checks += 1
                if bits(arr) != b:
                    raise Violation("caller-array-modified", "%s array was modified in place" % what)
            d = run.stats()
            d.update(checks=checks, vt=vt, nontrivial=(switches > len(cl) or spec["mode"] == "interleave") and len(cl) > 1,
                     clients=len(cl), nfail=sum(1 for o in solo for x in o if x[0] == "step" and x[4]),
                     sig=world.digest([c["model"] for c in cl], spec["mode"], sig, d["trace"]))
            return d


class _E:
    def __init__(self, M, method, opts):
        self.M, self.method, self.opts, self.checks = M, method, opts, 0


def _mk_np(system, method, t0, arr, opts):
    """hand the caller's own numpy array to the integrator"""
    from ormatex_py import ode_exp, ode_explicit
    cls = ode_exp.ExpRBIntegrator if method in ref.RB else ode_exp.ExpSplitIntegrator if method in ref.SPLIT else \
        ode_exp.ExpLejaIntegrator if method in ref.LEJA else ode_explicit.RKIntegrator
    return cls(system, t0, arr, method=method, **opts)


def _same(a, b, leja):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) and x and not isinstance(x[-1], np.ndarray):
            if x != y:
                return False
        elif isinstance(x, tuple):
            if y is None or x[0] != y[0] or not _sarr(x[1], y[1], leja):
                return False
        elif isinstance(x, np.ndarray):
            if not _sarr(x, y, leja):
                return False
        elif x != y:
            return False
    return True


def _sarr(x, y, leja):
    if bits(x) == bits(y):
        return True
    return leja and close(x, y, LEJA_RT, max(np.abs(y).max(initial=0.0), 1e-290))


def _short(a):
    return repr(tuple(x for x in a if not isinstance(x, np.ndarray)))[:200]
