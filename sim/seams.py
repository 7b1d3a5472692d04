"""Fault plan, model seams and the line monitor.

A *fault* is armed for one operation and names the point inside it at which it
fires: the n-th evaluation of the model (any kind or one kind), the n-th line of
package code executed by the thread that runs the operation, the n-th blocking
wait, or the n-th thread start.
"""
import sys, _thread
import numpy as np
from . import sched, boot


class ModelFault(Exception):
    """What a failing user model raises."""


EXC = {"ModelFault": ModelFault, "ValueError": ValueError, "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError,
       "MemoryError": MemoryError, "OSError": OSError, "KeyError": KeyError, "KeyboardInterrupt": KeyboardInterrupt,
       "SystemExit": SystemExit, "TimeoutError": TimeoutError, "AttributeError": AttributeError, "StopIteration": StopIteration,
       "ZeroDivisionError": ZeroDivisionError, "AssertionError": AssertionError, "GeneratorExit": GeneratorExit}
SEAM_EXC = ["ModelFault", "ValueError", "RuntimeError", "FloatingPointError", "MemoryError", "OSError", "KeyError",
            "AttributeError", "ZeroDivisionError", "AssertionError"]
LINE_EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]
EVAL_KINDS = ("frhs", "fjac", "fl", "matvec", "fdt", "frhs_cached", "dense")


class OpCtx:
    """What happened inside one operation of one simulated client."""

    def __init__(self, faults=()):
        self.faults = [dict(f) for f in faults]
        self.hits = 0
        self.kind_hits = {}
        self.lines = 0
        self.blocks = 0
        self.fired = []
        self.ended = False
        self.late_hits = 0
        self.late_lines = 0
        self.data_seen = []


class Seams:
    """Per-run seam state. Every evaluation is attributed to the operation of
    the simulated thread that performs it (worker threads inherit the role of
    the thread that started them; `role_of_thread` is refreshed by ops)."""

    def __init__(self):
        self.total_hits = 0
        self.total_lines = 0
        self.fired = {}
        self.log_data = False
        self.ctx = {}               # role -> current OpCtx
        self.observer = None
        self.yield_on_hit = True
        self.yield_on_line = False
        self.max_hits = None        # per-op hit budget (liveness)

    def _ctx(self):
        s = sched.SIM
        if s is None:
            return None, None
        t = s.by_ident.get(_thread.get_ident())
        if t is None:
            return s, None
        return s, self.ctx.get(t.role)

    def begin(self, role, faults=()):
        c = OpCtx(faults)
        self.ctx[role] = c
        for f in c.faults:
            if f["k"] == "thr":
                sched.SIM.fail_thread_start = int(f.get("n", 1))
                sched.SIM.thread_start_failures = 0
        return c

    def end(self, role):
        c = self.ctx.get(role)
        if c is not None:
            c.ended = True
            s = sched.SIM
            if any(f["k"] == "thr" for f in c.faults):
                s.fail_thread_start = 0
                if s.thread_start_failures:
                    self._fired(c, {"k": "thr"})
        return c

    def _fired(self, c, f, kind=""):
        name = f["k"] + (":" + str(f.get("val")) if f["k"] == "poison" else "") + ((":" + f["cls"]) if "cls" in f else "")
        c.fired.append((name, kind))
        self.fired[name] = self.fired.get(name, 0) + 1

    # -- model evaluations -------------------------------------------------
    def hit(self, kind, data=None, compiled=False):
        """called at every evaluation of the harness model"""
        s, c = self._ctx()
        self.total_hits += 1
        act = None
        if c is not None:
            if c.ended:
                c.late_hits += 1
            c.hits += 1
            c.kind_hits[kind] = c.kind_hits.get(kind, 0) + 1
            if self.observer is not None:
                self.observer(kind, data, c)
            if self.max_hits is not None and c.hits > self.max_hits:
                raise WorkBudget("more than %d model evaluations in one operation" % self.max_hits)
            for f in c.faults:
                if f.get("done") or f["k"] not in ("exc", "poison") or (compiled and f["k"] == "exc"):
                    continue
                if f.get("kind") and f["kind"] != kind:
                    continue
                n = c.kind_hits[kind] if f.get("kind") else c.hits
                if not (n == f["at"] or (f.get("until") and f["at"] <= n <= f["until"]) or n in f.get("set", ())):
                    continue
                if f["k"] == "exc":
                    f["done"] = True
                    self._fired(c, f, kind)
                    raise EXC[f["cls"]]("injected %s at %s evaluation %d" % (f["cls"], kind, n))
                if not f.get("until") and not f.get("set"):
                    f["done"] = True
                if not f.get("seen"):
                    f["seen"] = True
                    self._fired(c, f, kind)
                act = f
        if s is not None and self.yield_on_hit and not compiled:
            s.yield_point("hit")
        return act

    # -- lines -------------------------------------------------------------
    def line(self):
        s = sched.SIM
        if s is None or s.dead:
            return
        t = s.mine()
        if t is None:
            return
        c = self.ctx.get(t.role)
        self.total_lines += 1
        if c is not None and not c.ended and t.name.startswith(("main", "client")):
            c.lines += 1
            for f in c.faults:
                if f["k"] == "intr" and not f.get("done") and c.lines == f["at"]:
                    f["done"] = True
                    self._fired(c, f, "line")
                    raise EXC[f.get("cls", "KeyboardInterrupt")]("injected at line event %d" % c.lines)
        elif c is not None and c.ended and not t.name.startswith(("main", "client")):
            c.late_lines += 1
        if self.yield_on_line:
            s.yield_point("line")

    def on_block(self, sim):
        c = self.ctx.get(sim.main.role)
        if c is None or c.ended:
            return
        c.blocks += 1
        for f in c.faults:
            if f["k"] == "intr_block" and not f.get("done") and c.blocks == f["at"]:
                f["done"] = True
                self._fired(c, f, "block")
                sim.main.pending_exc = KeyboardInterrupt("injected while blocked")
                sim.main.wake_orig = sim.main.wake
                sim.main.wake = lambda: True


class WorkBudget(BaseException):
    """An operation exceeded its bound on model evaluations."""


SEAM = Seams()


def new_seams():
    global SEAM
    SEAM = Seams()
    return SEAM


# ---------------------------------------------------------------------------
# line monitor (sys.monitoring): only code of the package under test
# ---------------------------------------------------------------------------
_TOOL = 4
_on = False
_trace_clean = None


def enable_lines():
    global _on, _trace_clean
    if _on:
        return
    from jax._src import core
    _trace_clean = core.trace_state_clean
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "dst")
    prefix = boot.REPO.rstrip("/") + "/ormatex_py/"
    import os
    prefix2 = os.path.realpath(prefix) + "/"
    DIS = mon.DISABLE
    cache = {}

    def cb(code, line):
        ok = cache.get(code.co_filename)
        if ok is None:
            ok = cache[code.co_filename] = code.co_filename.startswith(prefix) or code.co_filename.startswith(prefix2)
        if not ok:
            return DIS
        if LINE_ACTIVE and _trace_clean():
            SEAM.line()
    mon.register_callback(_TOOL, mon.events.LINE, cb)
    mon.set_events(_TOOL, mon.events.LINE)
    _on = True


LINE_ACTIVE = False


def lines_active(v):
    global LINE_ACTIVE
    LINE_ACTIVE = bool(v)


VALS = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e300, "big": 1e12}


def poison_np(act, x):
    x = np.array(x)
    val, comp = VALS[act["val"]], act.get("comp", -1)
    if comp is None or comp < 0 or x.ndim == 0:
        x[...] = val
    elif x.ndim == 1:
        x[comp % x.shape[0]] = val
    else:
        x[comp % x.shape[0], (comp // 7) % x.shape[1]] = val
    return x


def poison_array(act, x):
    """apply a poison action to an array result"""
    import jax.numpy as jnp
    val = VALS[act["val"]]
    comp = act.get("comp", -1)
    x = jnp.asarray(x)
    if comp is None or comp < 0 or x.ndim == 0:
        return jnp.full_like(x, val)
    if x.ndim == 1:
        return x.at[comp % x.shape[0]].set(val)
    return x.at[comp % x.shape[0], (comp // 7) % x.shape[1]].set(val)
