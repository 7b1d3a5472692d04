"""One simulated run: integrators under test, operations, histories."""
import io, random, hashlib, gc, json
import numpy as np
from . import sched, seams, models, ref


def make_integrator(system, method, t0, y0, opts):
    import jax.numpy as jnp
    from ormatex_py import ode_exp, ode_explicit
    o = {k: v for k, v in opts.items() if not k.startswith("_")}
    if method in ref.RB:
        cls = ode_exp.ExpRBIntegrator
    elif method in ref.SPLIT:
        cls = ode_exp.ExpSplitIntegrator
    elif method in ref.LEJA:
        cls = ode_exp.ExpLejaIntegrator
    elif method == "user":
        cls = models.user_integrator()
    else:
        cls = ode_explicit.RKIntegrator
    # '_np': the initial state is a numpy array
    return cls(system, t0, np.array(y0) if opts.get("_np") else jnp.asarray(y0), method=method, **o)


def bits(y):
    """exact identity of an array (all NaNs equal)"""
    a = np.array(y, dtype=float)
    return (a.shape, np.where(np.isnan(a), np.nan, a).tobytes())


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode() if not isinstance(p, bytes) else p)
    return h.hexdigest()[:16]


def hist_of(I):
    """accepted history as reported (public fields where they exist)"""
    th, yh = getattr(I, "t_hist", None), getattr(I, "y_hist", None)
    try:
        return [(float(a), bits(b)) for a, b in zip(list(th), list(yh))]
    except TypeError:
        return None


def snap(I):
    return (float(I.time), bits(I.state), float(I.t), hist_of(I))


class Violation(Exception):
    """A property violation (not a harness error)."""

    def __init__(self, klass, detail):
        super().__init__("%s: %s" % (klass, detail))
        self.klass, self.detail = klass, detail


def close(a, b, rt, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        return bits(a) == bits(b)
    return bool(np.abs(a - b).max(initial=0.0) <= rt * scale)


def err(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return "shapes %s %s" % (a.shape, b.shape)
    with np.errstate(all="ignore"):
        return "max|diff|=%.3e scale=%.3e" % (np.abs(a - b).max(initial=0.0), np.abs(b).max(initial=0.0))


class SimRun:
    """context manager owning scheduler, seams and clock of one run.

    sched: {"seed", "p", "strategy"} for seeded scheduling, {"fixed": {n: tid}}
    for an explicit list of context switches, None for sequential execution."""

    def __init__(self, spec=None, lines=False, line_yield=False, clock=None):
        sp = spec or {}
        if "fixed" in sp:
            self.dec = sched.Decider(fixed={int(k): int(v) for k, v in sp["fixed"].items()})
        elif "seed" in sp:
            self.dec = sched.Decider(random.Random(sp["seed"]), float(sp.get("p", 0.1)), sp.get("strategy", "random"))
        else:
            self.dec = sched.Decider()
        self.lines, self.line_yield, self.clock = lines, line_yield, clock

    def __enter__(self):
        gc.disable()
        self.sim = sched.Sim(self.dec)
        self.sim.main.role = "main"
        sched.set_sim(self.sim)
        self.seam = seams.new_seams()
        self.seam.yield_on_line = self.line_yield
        self.sim.on_block = self.seam.on_block
        sched.CLOCK.t, sched.CLOCK.jumps, sched.CLOCK.reads = 0.0, list(self.clock or []), 0
        from . import boot
        boot.MODS["cf_thread"]._global_shutdown_lock._locked = False
        boot.MODS["cf_thread"]._threads_queues.clear()
        if self.lines:
            seams.enable_lines()
        seams.lines_active(self.lines)
        global CURRENT
        CURRENT = self
        return self

    def __exit__(self, et, ev, tb):
        seams.lines_active(False)
        self.sim.finish()
        sched.set_sim(None)
        gc.enable()
        return False

    def stats(self):
        return dict(hits=self.seam.total_hits, lines=self.seam.total_lines, switches=self.sim.switches,
                    decisions=self.dec.n, threads=len(self.sim.threads), fired=dict(self.seam.fired),
                    clock_reads=sched.CLOCK.reads, trace="%x" % self.sim.trace_hash)


CURRENT = None


# exceptions that count as "the failure reached the caller": everything injected
def call(role, fn, faults=()):
    """Run one operation under a fault plan. Returns (value, exception, ctx)."""
    c = seams.SEAM.begin(role, faults)
    v = e = None
    try:
        v = fn()
    except (sched.SimKilled, sched.SimDeadlock, seams.WorkBudget):
        seams.SEAM.end(role)
        raise
    except BaseException as x:
        e = x
    seams.SEAM.end(role)
    if e is not None:
        e.__traceback__ = None
        e.__context__ = None
    return v, e, c
