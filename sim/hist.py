"""Operation histories on one integrator: C01 rejected proposals, C02 re-initialisation,
C03 failed steps, C04 scheme conformance, C12 conservation and partition invariance."""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
from . import gen, ref, models, seams, sched, world
from .world import Violation, bits, call, snap, make_integrator, close, err

LEJA_RT = 2e-8


def leja_rt(model):
    """agreement between two Leja propagations that start from different substep sizes and spectral estimates;
    a finite-difference Jacobian is linear only up to its truncation error, which the polynomial amplifies"""
    return 1e-5 if model.get("jac") == "fd" else LEJA_RT


@contextlib.contextmanager
def eager_ctx(spec):
    """evaluate without jit, in every thread"""
    if spec.get("eager"):
        jax.config.update("jax_disable_jit", True)
    try:
        yield
    finally:
        if spec.get("eager"):
            jax.config.update("jax_disable_jit", False)


def guard(fn, what):
    """A fault-free package operation that must not raise."""
    v, e, c = call("main", fn)
    if e is not None:
        raise Violation("unexpected-exception", "%s raised %s: %s" % (what, type(e).__name__, str(e)[:160]))
    return v


class Engine:
    def __init__(self, spec, run):
        self.spec, self.run = spec, run
        self.method, self.opts = spec["method"], spec.get("opts", {})
        self.sys, self.M = models.build(spec["model"])
        self.leja = self.method in ref.LEJA
        self.sig = []
        self.checks = 0
        self.vt = 0.0
        self.nfail = 0
        self.start(spec.get("t0", 0.0), models.y0_of(spec["model"]))
        self.I = make_integrator(self.sys, self.method, self.t0, self.y0, self.opts)

    # -- reference bookkeeping ---------------------------------------------
    def start(self, t0, y0):
        self.t0, self.y0 = float(t0), np.array(y0)
        self.D = []                                   # accepted steps since the (re)start
        self.H = [(self.t0, np.array(self.y0))]       # accepted history, newest first
        self.props = []
        self.T = None

    def twin(self):
        """integrator that only ever saw the accepted steps"""
        if self.T is None:
            self.T = make_integrator(self.sys, self.method, self.t0, self.y0, self.opts)
            for dt in self.D:
                self.T.accept_step(guard(lambda: self.T.step(dt), "replayed step"))
        return self.T

    def fresh(self):
        T = make_integrator(self.sys, self.method, self.t0, self.y0, self.opts)
        for dt in self.D:
            T.accept_step(guard(lambda: T.step(dt), "replayed step"))
        return T

    def quiet(self):
        dec = self.run.dec

        class Q:
            def __enter__(s):
                dec.quiet = True
                s.la, s.yl = seams.LINE_ACTIVE, self.run.seam.yield_on_line

            def __exit__(s, *a):
                dec.quiet = False
                return False
        return Q()

    def same(self, a, b):
        """results of the same step"""
        if a.t != b.t or a.dt != b.dt:
            return False
        if self.leja:
            y = np.asarray(b.y)
            return close(a.y, y, leja_rt(self.spec["model"]), max(np.abs(y).max(initial=0.0), np.abs(self.H[0][1]).max(initial=0.0), 1e-290))
        return bits(a.y) == bits(b.y)

    # -- operations ----------------------------------------------------------
    def resolve(self, faults, fn):
        """turn relative fault positions into event numbers, from a fault-free pass of the same operation"""
        if not any("u" in f for f in faults):
            return faults
        with self.quiet():
            _, e, c = call("main", fn)
        out = []
        for f in faults:
            f = dict(f)
            if "u" in f:
                total = c.lines if f["k"] == "intr" else (c.kind_hits.get(f["kind"], 0) if f.get("kind") else c.hits)
                if total <= 0:
                    continue
                f["at"] = 1 + int(f["u"] * total) if f["u"] < 1 else total
            out.append(f)
        return out

    def step(self, op):
        dt = op["dt"]
        before = snap(self.I)
        faults = op.get("faults", [])
        if faults:
            with self.quiet():
                T = self.fresh()
            faults = self.resolve(faults, lambda: T.step(dt))
        v, e, c = call("main", lambda: self.I.step(dt), faults)
        after = snap(self.I)
        self.checks += 1
        if after != before:
            raise Violation("step-left-trace", "%s step dt=%g (%s) changed the reported time/state/history" % (
                self.method, dt, "raised " + type(e).__name__ if e is not None else "not accepted"))
        self.sig.append(("step", round(dt, 9), tuple(c.fired), None if e is None else type(e).__name__))
        hard = [f for f in c.fired if not f[0].startswith("poison")]
        if hard:
            self.nfail += 1
            self.check_failure(v, e, c, dt)
            return None
        if e is not None:
            if self.leja and isinstance(e, RuntimeError):
                with self.quiet():
                    T = self.fresh()
                    _, e2, _ = call("main", lambda: T.step(dt))
                if e2 is None:
                    raise Violation("step-differs", "%s dt=%g raises here (%s) but succeeds in an integrator that saw only the accepted steps" % (self.method, dt, str(e)[:80]))
                return None
            raise Violation("unexpected-exception", "%s step dt=%g raised %s: %s" % (self.method, dt, type(e).__name__, str(e)[:160]))
        if v.t != before[0] + dt or v.dt != dt:
            raise Violation("wrong-time", "%s step from t=%r with dt=%r claims t=%r dt=%r" % (self.method, before[0], dt, v.t, v.dt))
        if op.get("chk"):
            with self.quiet():
                w = guard(lambda: self.fresh().step(dt), "reference step")
            self.checks += 1
            if not self.same(v, w):
                raise Violation("step-differs", "%s dt=%g: proposal differs from that of an integrator that saw only the accepted steps: %s" % (
                    self.method, dt, err(v.y, w.y)))
        self.props.append((v, dt, bits(v.y), v.t))
        return v

    def check_failure(self, v, e, c, dt):
        names = [f[0] for f in c.fired]
        if e is None:
            raise Violation("failure-swallowed", "%s step dt=%g returned a result although %s was injected (%s)" % (self.method, dt, names, c.fired))
        ok = any(n == "thr" and isinstance(e, RuntimeError) or n == "intr_block" and isinstance(e, KeyboardInterrupt) or
                 (":" in n and isinstance(e, seams.EXC.get(n.split(":")[-1], ()))) for n in names)
        if not ok:
            raise Violation("failure-changed", "%s step dt=%g: injected %s, caller saw %s: %s" % (self.method, dt, names, type(e).__name__, str(e)[:120]))

    def accept(self, op):
        if not self.props:
            return False
        v, dt, b, t = self.props[op.get("which", 0) % len(self.props)]
        self.checks += 1
        if bits(v.y) != b or v.t != t:
            raise Violation("proposal-changed", "%s: a proposal's contents changed before it was accepted" % self.method)
        guard(lambda: self.I.accept_step(v), "accept_step")
        if float(self.I.time) != float(t) or float(self.I.t) != float(t) or bits(self.I.state) != b:
            raise Violation("wrong-accept", "%s: accepted t=%r but integrator reports time=%r t=%r; state equal: %s" % (
                self.method, t, self.I.time, self.I.t, bits(self.I.state) == b))
        with self.quiet():
            T = self.twin()
            w = guard(lambda: T.step(dt), "reference step")
        if not self.same(v, w):
            raise Violation("step-differs", "%s dt=%g: accepted state differs from that of an integrator that saw only the accepted steps: %s" % (
                self.method, dt, err(v.y, w.y)))
        if self.leja:
            w.y = v.y                       # keep both on the same trajectory
        T.accept_step(w)
        self.D.append(dt)
        if self.leja:
            self.T, self.D = None, []       # restart the reference from the accepted state below
        self.sig.append("accept")
        self.vt += abs(dt)
        self.prev = self.H[0]
        self.H.insert(0, (float(t), np.array(v.y)))
        self.props = []
        return True


class LejaEngine(Engine):
    """Leja warm starts make bit equality depend on history; the twin is rebuilt by
    re-accepting the recorded states instead of recomputing them."""

    def _rebuild(self):
        T = make_integrator(self.sys, self.method, self.t0, self.y0, self.opts)
        for v in self.acc:
            T.accept_step(v)
        return T

    def start(self, t0, y0):
        super().start(t0, y0)
        self.acc = []

    def twin(self):
        return self._rebuild()

    fresh = twin

    def accept(self, op):
        v = self.props[op.get("which", 0) % len(self.props)][0] if self.props else None
        r = super().accept(op)
        if r:
            self.acc.append(v)
            self.D = []
        return r


def engine(spec, run):
    return (LejaEngine if spec["method"] in ref.LEJA else Engine)(spec, run)


def finite(e):
    return all(np.all(np.isfinite(y)) for _, y in e.H)


def has_lines(spec):
    s = str(spec.get("ops", "")) + str(spec.get("pre", ""))
    return "'intr'" in s


def finish(e, run, nontrivial, extra=None):
    d = run.stats()
    d.update(checks=e.checks, vt=e.vt, nontrivial=bool(nontrivial), accepted=len(e.H) - 1, nfail=e.nfail,
             sig=world.digest(e.method, e.spec.get("model"), e.spec.get("opts"), e.sig, d["trace"]))
    d.update(extra or {})
    return d


# ---------------------------------------------------------------------------
class C01:
    ID = "C01"
    METHODS = ref.ALL + ref.USER

    @staticmethod
    def gen(i, rng, method, tier):
        eager = False
        m = gen.gen_model(rng, method)
        ops, dt = [], None
        for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
            k = rng.choice([0, 1, 1, 2, 3])
            batch = []
            for j in range(k):
                d = gen.gen_dt(rng, method, dt)
                if rng.random() < 0.12:
                    d = -d if method not in ref.LEJA and method not in ("exp_pfd", "exprb2_pfd") else d
                batch.append(dict(op="step", dt=d, chk=1 if rng.random() < 0.4 else 0))
                if rng.random() < 0.25:
                    dt = d
            dt = gen.gen_dt(rng, method, dt)
            batch.insert(rng.randint(0, len(batch)), dict(op="step", dt=dt))
            ops += batch
            if rng.random() < 0.15:
                ops.append(dict(op="discard"))
                ops.append(dict(op="step", dt=dt))
                ops.append(dict(op="accept", which=0))
            else:
                w = [b["dt"] for b in batch].index(dt) if rng.random() < 0.6 else rng.randrange(len(batch))
                ops.append(dict(op="accept", which=w))
        s = dict(method=method, model=m, opts=gen.gen_opts(rng, method, m.get("n", 2)), t0=gen.gen_t0(rng), ops=ops,
                    sched=gen.gen_sched(rng, method == "pexprb4"), eager=eager)
        if rng.random() < 0.12:
            s["opts"]["_np"] = True
        return gen.late(rng, s, (ops or [{}])[0].get("dt", 0.1))

    @staticmethod
    def run(spec):
        with world.SimRun(spec.get("sched")) as run, eager_ctx(spec):
            e = engine(spec, run)
            disc = 0
            for op in spec["ops"]:
                if op["op"] == "step":
                    e.step(op)
                elif op["op"] == "discard":
                    disc += len(e.props)
                    e.props = []
                else:
                    disc += max(len(e.props) - 1, 0)
                    e.accept(op)
                if not finite(e):
                    break
            return finish(e, run, disc > 0 and len(e.H) > 1, dict(discarded=disc))


# ---------------------------------------------------------------------------
class C02:
    ID = "C02"
    METHODS = ref.ALL + ref.USER

    @staticmethod
    def gen(i, rng, method, tier):
        resize = rng.random() < 0.25 and method not in ("exp_pfd",)
        if resize:
            m = dict(model="elem", n=rng.choice([2, 3]), seed=rng.randrange(1 << 20))
        else:
            m = gen.gen_model(rng, method)
        ops, dt = [], None
        for _ in range(rng.randint(1, 5)):
            dt = gen.gen_dt(rng, method, dt)
            o = dict(op="step", dt=dt)
            c = rng.random()
            if c < 0.3:
                o["faults"] = [gen.gen_fault(rng, method, ("exc", "intr", "intr"))]
            elif c < 0.4:
                o["faults"] = [gen.gen_fault(rng, method, ("poison",))]
            ops.append(o)
            if rng.random() < 0.75:
                a = dict(op="accept")
                if rng.random() < 0.15:
                    a["faults"] = [gen.gen_fault(rng, method, ("intr",))]
                ops.append(a)
            if rng.random() < 0.1:
                ops.append(dict(op="reset", t0=gen.gen_t0(rng), y0seed=rng.randrange(1 << 20)))
        r = dict(op="reset", t0=gen.gen_t0(rng), y0seed=rng.randrange(1 << 20))
        if rng.random() < 0.15:
            r["same"] = 1                      # back to the original initial condition
        if resize:
            r["n"] = rng.choice([2, 3, 4])
        if rng.random() < 0.25:
            r["faults"] = [gen.gen_fault(rng, method, ("intr",))]
        probe = []
        d = dt if rng.random() < 0.5 else gen.gen_dt(rng, method)
        for _ in range(rng.randint(1, 4)):
            probe.append(dict(op="step", dt=d))
            if rng.random() < 0.85:
                probe.append(dict(op="accept"))
            d = gen.gen_dt(rng, method, d)
        s = dict(method=method, model=m, opts=gen.gen_opts(rng, method, m.get("n", 2)), t0=gen.gen_t0(rng), ops=ops, reset=r,
                    probe=probe, sched=gen.gen_sched(rng, method == "pexprb4"))
        if rng.random() < 0.12:
            s["opts"]["_np"] = True
        return gen.late(rng, s, (ops or [{}])[0].get("dt", 0.1))

    @staticmethod
    def run(spec):
        lines = "intr" in str(spec)
        with world.SimRun(spec.get("sched"), lines=lines) as run, eager_ctx(spec):
            method, opts = spec["method"], spec.get("opts", {})
            sysm, M = models.build(spec["model"])
            y0 = models.y0_of(spec["model"])
            I = make_integrator(sysm, method, spec.get("t0", 0.0), y0, opts)
            sig, dirty, last, fails = [], 0, None, 0
            quiet = Engine.quiet

            def newy(r):
                if r.get("same"):
                    return np.array(y0)
                ms = dict(spec["model"], y0seed=r["y0seed"])
                if "n" in r:
                    ms["n"] = r["n"]
                return models.y0_of(ms)

            def faulty(fn, faults, prep):
                """relative positions: measured on a throw-away integrator"""
                if not faults:
                    return faults
                T = make_integrator(sysm, method, spec.get("t0", 0.0), y0, opts)
                run.dec.quiet = True
                v, e, c = call("main", lambda: prep(T))
                run.dec.quiet = False
                out = []
                for f in faults:
                    f = dict(f)
                    if "u" in f:
                        tot = c.lines if f["k"] == "intr" else c.hits
                        if tot <= 0:
                            continue
                        f["at"] = 1 + int(f["u"] * tot)
                    out.append(f)
                return out
            for op in spec["ops"]:
                if op["op"] == "step":
                    fl = faulty(None, op.get("faults", []), lambda T: T.step(op["dt"]))
                    v, e, c = call("main", lambda: I.step(op["dt"]), fl)
                    last = v
                    dirty += 1
                elif op["op"] == "accept":
                    if last is None:
                        continue

                    def prep(T):
                        T.accept_step(last)
                    fl = faulty(None, op.get("faults", []), prep)
                    v, e, c = call("main", lambda: I.accept_step(last), fl)
                    last = None
                else:
                    v, e, c = call("main", lambda: I.reset_ic(op["t0"], jnp.asarray(newy(op))))
                    last = None
                fails += bool(c.fired)
                sig.append((op["op"], tuple(c.fired), None if e is None else type(e).__name__))
            r = spec["reset"]
            yn = newy(r)
            if r.get("faults"):
                fl = faulty(None, r["faults"], lambda T: T.reset_ic(r["t0"], jnp.asarray(yn)))
                v, e, c = call("main", lambda: I.reset_ic(r["t0"], jnp.asarray(yn)), fl)
                fails += bool(c.fired)
                sig.append(("reset", tuple(c.fired)))
            guard(lambda: I.reset_ic(r["t0"], jnp.asarray(yn)), "reset_ic")
            checks = 1
            if float(I.time) != float(r["t0"]) or bits(I.state) != bits(yn) or float(I.t) != float(r["t0"]):
                raise Violation("reset-not-initial", "%s: after reset_ic(t0=%r) the integrator reports time=%r t=%r, state equal: %s" % (
                    method, r["t0"], I.time, I.t, bits(I.state) == bits(yn)))
            F = make_integrator(sysm, method, r["t0"], yn, opts)
            a = b = None
            vt = 0.0
            for op in spec["probe"]:
                if op["op"] == "step":
                    run.dec.quiet = True
                    b, e2, _ = call("main", lambda: F.step(op["dt"]))
                    run.dec.quiet = False
                    a, e1, _ = call("main", lambda: I.step(op["dt"]))
                    checks += 1
                    if (e1 is None) != (e2 is None) or (e1 is not None and type(e1) is not type(e2)):
                        raise Violation("reset-differs", "%s dt=%g: re-initialised integrator: %s, new one: %s" % (
                            method, op["dt"], "raised %r" % (e1,) if e1 is not None else "returned", "raised %r" % (e2,) if e2 is not None else "returned"))
                    if e1 is not None:
                        a = b = None
                        continue
                    yb = np.asarray(b.y)
                    same = a.t == b.t and a.dt == b.dt and (bits(a.y) == bits(yb) or (
                        method in ref.LEJA and close(a.y, yb, leja_rt(spec["model"]), max(np.abs(yb).max(initial=0), np.abs(yn).max(initial=0), 1e-290))))
                    if not same:
                        raise Violation("reset-differs", "%s dt=%g: step after re-initialisation differs from a new integrator's: t %r/%r, %s" % (
                            method, op["dt"], a.t, b.t, err(a.y, b.y)))
                    vt += abs(op["dt"])
                elif a is not None:
                    guard(lambda: I.accept_step(a), "accept_step")
                    F.accept_step(b)
                    if (float(I.time), float(I.t)) != (float(F.time), float(F.t)) or \
                            not (bits(I.state) == bits(F.state) or method in ref.LEJA):
                        raise Violation("reset-differs", "%s: reported time/state after accepting differ from a new integrator's (time %r/%r)" % (method, I.time, F.time))
                    a = b = None
            d = run.stats()
            d.update(checks=checks, vt=vt, nontrivial=dirty > 0, nfail=fails,
                     sig=world.digest(method, spec["model"], opts, sig, spec["reset"], spec["probe"], d["trace"]))
            return d


# ---------------------------------------------------------------------------
class C03:
    ID = "C03"

    @staticmethod
    def gen(i, rng, method, tier):
        eager = rng.random() < (0.7 if method in ("rk4", "exprb2_dense") else 0.12) and method not in ref.LEJA
        m = gen.gen_model(rng, method, eager=eager, n=2 if eager else None, shipped=0.1)
        kinds = ["exc", "intr", "intr"]
        if method == "pexprb4":
            kinds += ["intr_block", "thr"]
        if method in ("rk4", "exprb2_dense") and not eager:
            kinds = ["intr"]
        ops, dt = [], None
        for _ in range(rng.randint(1, 4 if not eager else 2)):
            dt = gen.gen_dt(rng, method, dt)
            nf = rng.choice([0, 1, 1, 2])
            for j in range(nf):
                fs = [gen.gen_fault(rng, method, kinds)]
                if method == "pexprb4" and rng.random() < 0.2:
                    fs.append(gen.gen_fault(rng, method, ("exc",)))
                ops.append(dict(op="step", dt=dt if rng.random() < 0.6 else gen.gen_dt(rng, method, dt), faults=fs))
            ops.append(dict(op="step", dt=dt))
            ops.append(dict(op="accept", which=-1))
        ops.append(dict(op="step", dt=dt, chk=1))
        s = dict(method=method, model=m, opts=gen.gen_opts(rng, method, m.get("n", 2)), t0=gen.gen_t0(rng), ops=ops, eager=eager,
                    sched=gen.gen_sched(rng, method == "pexprb4"))
        if rng.random() < 0.12:
            s["opts"]["_np"] = True
        return gen.late(rng, s, (ops or [{}])[0].get("dt", 0.1))

    @staticmethod
    def run(spec):
        with world.SimRun(spec.get("sched"), lines=has_lines(spec)) as run, eager_ctx(spec):
            e = engine(spec, run)
            after = 0
            for op in spec["ops"]:
                if op["op"] == "step":
                    if not op.get("faults"):
                        after += e.nfail > 0
                        e.props = []
                    e.step(op)
                else:
                    e.accept(op)
                if not finite(e):
                    break
            return finish(e, run, e.nfail > 0 and after > 0)


# ---------------------------------------------------------------------------
class C04:
    ID = "C04"

    @staticmethod
    def gen(i, rng, method, tier):
        m = gen.gen_model(rng, method, shipped=0.2)
        ops, dt = [], None
        for _ in range(rng.randint(2, 5 if tier == "quick" else 10)):
            dt = gen.gen_dt(rng, method, dt)
            if rng.random() < 0.06 and method not in ref.LEJA + ["exp_pfd", "exprb2_pfd"]:
                dt = -dt
            if rng.random() < 0.25:
                ops.append(dict(op="step", dt=gen.gen_dt(rng, method, dt)))
            if rng.random() < 0.15:
                ops.append(dict(op="step", dt=dt, faults=[gen.gen_fault(rng, method, ("exc", "intr"))]))
            ops.append(dict(op="step", dt=dt))
            ops.append(dict(op="accept", which=-1))
            dt = abs(dt)
            if rng.random() < 0.08:
                ops.append(dict(op="reset", t0=gen.gen_t0(rng), y0seed=rng.randrange(1 << 20)))
        s = dict(method=method, model=m, opts=gen.gen_opts(rng, method, m.get("n", 2), 0.4), t0=gen.gen_t0(rng), ops=ops,
                    sched=gen.gen_sched(rng, method == "pexprb4"))
        if rng.random() < 0.12:
            s["opts"]["_np"] = True
        return gen.late(rng, s, (ops or [{}])[0].get("dt", 0.1))

    @staticmethod
    def run(spec):
        with world.SimRun(spec.get("sched"), lines=has_lines(spec)) as run, eager_ctx(spec):
            e = engine(spec, run)
            tsum, worst = e.t0, 0.0
            for op in spec["ops"]:
                if op["op"] == "step":
                    e.step(op)
                elif op["op"] == "reset":
                    y = models.y0_of(dict(spec["model"], y0seed=op["y0seed"]))
                    guard(lambda: e.I.reset_ic(op["t0"], jnp.asarray(y)), "reset_ic")
                    h = e.H
                    e.start(op["t0"], y)
                    tsum = e.t0
                    e.sig.append("reset")
                else:
                    if not e.props:
                        continue
                    hist = [e.H[0]] + e.H[1:2]
                    v, dt, _, _ = e.props[op["which"] % len(e.props)]
                    e.accept(op)
                    worst = max(worst, conform(e, hist, dt, np.asarray(v.y)))
                    tsum += dt
                    if abs(e.I.time - tsum) > 1e-12 * max(1.0, abs(tsum)) * 10:
                        raise Violation("wrong-time", "%s: time %r after accepted steps adding up to %r" % (spec["method"], e.I.time, tsum))
                    # stay on the reference trajectory: compare the next step from the accepted state
                    if not finite(e) or np.abs(e.H[0][1]).max() > 1e4 * models.unit(e.M):
                        break
            return finish(e, run, len(e.H) > 1, dict(worst=worst))


def conform(e, hist, dt, y):
    """compare an accepted state with the documented update from the accepted history"""
    if e.M is None:
        return 0.0
    with np.errstate(all="ignore"):
        yr = ref.ref_step(e.M, e.method, e.opts, dt, hist)
        if not np.all(np.isfinite(yr)) or np.abs(yr).max() > 1e6 * models.unit(e.M):
            return 0.0
        rt, sc = ref.ref_tol(e.M, e.method, e.opts, dt, hist, yr)
    e.checks += 1
    d = np.abs(np.asarray(y) - yr).max()
    if not d <= rt * sc:
        raise Violation("not-the-scheme", "%s dt=%g opts=%s: accepted state differs from the documented update by %.3e (allowed %.1e, size %.2e), history of %d" % (
            e.method, dt, e.opts, d, rt * sc, sc, len(hist)))
    return float(d / (rt * sc))


# ---------------------------------------------------------------------------
class C12:
    ID = "C12"

    @staticmethod
    def gen(i, rng, method, tier):
        mode = rng.choice(["closed", "closed", "affine"])
        if method in ("rk4", "exp_pfd"):
            mode = "closed"
        s = dict(method=method, mode=mode, t0=gen.gen_t0(rng) if mode == "closed" else 0.0)
        if mode == "closed":
            c = rng.random()
            if c < 0.4:
                m = dict(model="bateman", n=rng.choice(gen.NS), seed=rng.randrange(1 << 20))
            elif c < 0.85 or method in ("exp_pfd", "exprb2_pfd", "epi2_leja_re"):
                kind = "closed" if method not in ("exp_pfd", "exprb2_pfd", "epi2_leja_re") else "chain0"
                m = dict(model="quad", n=rng.choice(gen.NS), seed=rng.randrange(1 << 20), kind=kind, stiff=rng.choice([0.3, 1.0, 3.0]),
                         nl=rng.choice([0.0, 0.2]) if method != "exp_pfd" else 0.0, closednl=1,
                         jac=rng.choice(["custom", "ad"]), lmode=rng.choice(["A", "A", "zero"]))
            else:
                m = dict(model="xfer", n=rng.choice([2, 3]), seed=rng.randrange(1 << 20), jac=rng.choice(["custom", "ad"]))
            s["model"] = m
            ops, dt = [], None
            for _ in range(rng.randint(2, 6)):
                dt = gen.gen_dt(rng, method, dt)
                c = rng.random()
                if c < 0.25:
                    ops.append(dict(op="step", dt=gen.gen_dt(rng, method, dt)))
                elif c < 0.5:
                    ops.append(dict(op="step", dt=dt, faults=[gen.gen_fault(rng, method, ("exc", "intr"))]))
                ops.append(dict(op="step", dt=dt))
                ops.append(dict(op="accept", which=-1))
                if rng.random() < 0.12:
                    ops.append(dict(op="crash"))
            s["opts"] = gen.gen_opts(rng, method, 3)
            s["opts"].pop("iom", None)
        else:
            kind = "symneg" if method in ("exprb2_pfd", "epi2_leja_re") else rng.choice(["symneg", "stable", "rot", "block"])
            if method in ref.LEJA and kind == "rot":
                kind = "symneg"
            m = dict(model="quad", n=rng.choice(gen.NS), seed=rng.randrange(1 << 20), kind=kind, stiff=rng.choice([0.3, 1.0]),
                     const=rng.choice([0.0, 0.5]), jac=rng.choice(["custom", "ad"]), lmode="A")
            s["model"] = m
            total = rng.choice([0.5, 1.0, 2.0])
            k = rng.randint(2, 6)
            w = [rng.uniform(0.2, 1.0) for _ in range(k)]
            ops = []
            for x in w:
                dt = total * x / sum(w)
                c = rng.random()
                if c < 0.25:
                    ops.append(dict(op="step", dt=dt * rng.choice([2.0, 0.5, 1.0])))
                elif c < 0.5:
                    ops.append(dict(op="step", dt=dt, faults=[gen.gen_fault(rng, method, ("exc", "intr"))]))
                ops.append(dict(op="step", dt=dt))
                ops.append(dict(op="accept", which=-1))
                if rng.random() < 0.15:
                    ops.append(dict(op="crash"))
            s["opts"] = {}
        s["ops"] = ops
        s["sched"] = gen.gen_sched(rng, method == "pexprb4")
        return s

    @staticmethod
    def run(spec):
        method = spec["method"]
        with world.SimRun(spec.get("sched"), lines=has_lines(spec)) as run, eager_ctx(spec):
            e = engine(spec, run)
            mode = spec["mode"]
            m0 = total(spec, e.H[0][1])
            worst = 0.0
            tt, yy0 = e.t0, e.y0
            for op in spec["ops"]:
                if op["op"] == "step":
                    e.step(op)
                elif op["op"] == "crash":
                    # only the recorded (t, y) survives
                    t, y = e.H[0]
                    e.start(t, y)
                    e.I = make_integrator(e.sys, method, t, jnp.asarray(y), e.opts)
                    e.sig.append("crash")
                else:
                    if not e.props:
                        continue
                    e.accept(op)
                    y = e.H[0][1]
                    if not finite(e):
                        raise Violation("not-conserved", "%s: state became non-finite without any fault" % method)
                    if mode == "closed":
                        e.checks += 1
                        m1 = total(spec, y)
                        sc = max(np.abs(y).sum(), np.abs(yy0).sum())
                        rt = cons_rt(spec)
                        worst = max(worst, abs(m1 - m0) / (rt * sc))
                        if not abs(m1 - m0) <= rt * sc:
                            raise Violation("not-conserved", "%s: total %.15g became %.15g (allowed relative change %.1e) at t=%g" % (method, m0, m1, rt, e.I.time))
            if mode == "affine":
                T = e.H[0][0] - tt
                ye = affine_exact(e.M, T, yy0)
                sc = max(np.abs(ye).max(), np.abs(yy0).max())
                rt = affine_rt(e.M, method, T)
                d = np.abs(ye - e.H[0][1]).max()
                e.checks += 1
                worst = float(d / (rt * sc))
                if not d <= rt * sc:
                    raise Violation("partition-dependent", "%s: affine system, state after t=%g differs from the exact one by %.3e (allowed %.1e)" % (method, T, d, rt * sc))
            return finish(e, run, len(e.H) > 1 or e.nfail > 0, dict(worst=float(worst)))


def total(spec, y):
    return float(np.sum(y))


def cons_rt(spec):
    m = spec["method"]
    if m in ("exprb2_pfd", "exp_pfd"):
        return 1e-8
    if m in ref.LEJA:
        return 1e-8
    return 1e-10


def affine_exact(M, T, y0):
    import scipy.linalg as sl
    n = M.n
    Z = np.zeros((n + 1, n + 1))
    Z[:n, :n] = M.A * T
    Z[:n, n] = M.c * T
    E = sl.expm(Z)
    return E[:n, :n] @ y0 + E[:n, n]


def affine_rt(M, method, T):
    nJ = abs(T) * np.linalg.norm(M.A, 1)
    return 5e-6 * (1 + nJ) * np.exp(min(nJ, 3.0)) ** 0.5
