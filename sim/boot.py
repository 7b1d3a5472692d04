"""Process set-up: JAX configuration, simulated concurrency modules, import of the package under test."""
import os, sys, tempfile, gc

REPO = os.environ.get("ORMATEX_REPO", "/repo")
SCRATCH = None
MODS = None


def setup_env(scratch):
    os.environ.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", MPLCONFIGDIR=scratch, PYTHONDONTWRITEBYTECODE="1",
                      OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                      XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    sys.dont_write_bytecode = True


def _map_real_to_sim(mods):
    """identity map real object -> simulated object, for names bound by `from X import Y`"""
    import threading, queue, time, concurrent.futures as cf
    m = {}
    for real, sim, names in (
            (threading, mods["threading"], ("Thread", "Lock", "RLock", "Condition", "Event", "Semaphore", "BoundedSemaphore", "Barrier", "Timer")),
            (queue, mods["queue"], ("SimpleQueue", "Queue", "LifoQueue")),
            (time, mods["time"], ("perf_counter", "time", "monotonic", "process_time", "sleep", "perf_counter_ns", "time_ns", "monotonic_ns")),
            (cf, mods["cf"], ("ThreadPoolExecutor", "wait", "as_completed", "Future"))):
        for n in names:
            m[id(getattr(real, n))] = getattr(sim, n)
        m[id(real)] = sim
    return m


def import_package():
    """Import JAX & co. with the real primitives, then the package with simulated ones."""
    import jax
    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_cpu_enable_async_dispatch", False)
    import jax.numpy, numpy, scipy.linalg, equinox, diffrax, optimistix, lineax  # noqa: F401
    from jax.experimental import sparse  # noqa: F401
    import skfem, matplotlib.pyplot  # noqa: F401
    from . import sched
    import concurrent.futures, concurrent
    global MODS
    mods = MODS = sched.make_modules()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    keys = {"threading": mods["threading"], "queue": mods["queue"], "time": mods["time"],
            "concurrent.futures": mods["cf"]}
    saved = {k: sys.modules.get(k) for k in keys}
    real_attr = concurrent.futures
    sys.modules.update(keys)
    concurrent.futures = mods["cf"]
    try:
        import ormatex_py.ode_sys, ormatex_py.ode_exp, ormatex_py.ode_explicit  # noqa: F401
        import ormatex_py.integrate_wrapper, ormatex_py.matexp_krylov, ormatex_py.matexp_leja  # noqa: F401
        import ormatex_py.progression.bateman_sys, ormatex_py.progression.bateman_nonlin_sys  # noqa: F401
        import ormatex_py.progression.lotka_volterra, ormatex_py.progression.advection_diffusion_1d  # noqa: F401
    finally:
        concurrent.futures = real_attr
        for k, v in saved.items():
            sys.modules[k] = v
    ident = _map_real_to_sim(mods)
    for name, mod in list(sys.modules.items()):
        if name.startswith("ormatex_py") and mod is not None:
            for k, v in list(vars(mod).items()):
                r = ident.get(id(v))
                if r is not None:
                    setattr(mod, k, r)
    import ormatex_py
    got = os.path.realpath(os.path.dirname(ormatex_py.ode_sys.__file__))
    assert got == os.path.realpath(os.path.join(REPO, "ormatex_py")), got
    return mods
