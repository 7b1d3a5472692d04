"""What each check runs: run counts, assignment to workers, evidence texts. (No JAX import: used by the master.)"""
import json, os
from . import ref

WORKERS = 8            # fixed: the assignment of runs to processes is part of an execution
MIN_SECONDS = 120      # budget of the minimiser
QUICK_CAP, THOROUGH_CAP = 480, 2400
COSTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "costs.json")

METHODS = {p: ref.ALL for p in ("C03", "C04", "C06", "C10", "C11", "C12", "C14")}
METHODS.update(C01=ref.ALL + ref.USER, C02=ref.ALL + ref.USER, C05=["pexprb4"], C07=ref.ALL + ref.USER + ref.DIFFRAX, C08=ref.ALL + ref.USER + ref.DIFFRAX, C17=ref.ALL + ref.USER + ref.DIFFRAX, C09=ref.LEJA + ["direct_re", "direct_im"],
               C15=ref.ALL, C16=[m for m in ref.ALL if m not in ("exp_pfd", "exprb2_pfd")],
               C13=["custom", "ad", "fd", "custom_fd", "shipped", "default"])
# quick run counts: multiples of the number of methods
QUICK = dict(C01=570, C02=570, C03=720, C04=900, C05=320, C06=360, C07=432, C08=378, C09=250, C10=450, C11=540, C12=720, C13=420, C14=720, C15=720, C16=320, C17=378)


def costs():
    try:
        return json.load(open(COSTS))
    except (OSError, ValueError):
        return {}


def save_costs(pid, c):
    t = costs()
    t[pid] = c
    with open(COSTS, "w") as f:
        json.dump(t, f, indent=1, sort_keys=True)


def runs_for(pid, tier, n=None):
    ms = METHODS[pid]
    if n is None:
        n = QUICK[pid] * (1 if tier == "quick" else 40)
    return [(i, ms[i % len(ms)]) for i in range(n)], (QUICK_CAP if tier == "quick" else THOROUGH_CAP)


def split(pid, runs, workers):
    """runs of one method stay together (compiled kernels are reused), loads are balanced by measured cost"""
    c = costs().get(pid, {})
    by = {}
    for r in runs:
        by.setdefault(r[1], []).append(r)
    total = sum(c.get(m, 1.0) * len(v) for m, v in by.items())
    units = []
    for m, v in by.items():
        cm = c.get(m, 1.0)
        k = max(1, min(workers, len(v), round(cm * len(v) / (total / workers) + 0.4)))      # number of workers sharing this method
        for j in range(k):
            part = v[j * len(v) // k:(j + 1) * len(v) // k]
            units.append((cm * len(part), m, part))
    units.sort(key=lambda u: (-u[0], u[1], u[2][0][0]))
    load, out = [0.0] * workers, [[] for _ in range(workers)]
    for w, m, part in units:
        k = min(range(workers), key=lambda k: (load[k], k))
        load[k] += w
        out[k].append(part)
    res = []
    for parts in out:
        # round robin over this worker's methods, so that a time limit cuts all of them alike
        r, k = [], 0
        while any(parts):
            for p in parts:
                r += p[k:k + 4]
            k += 4
            if all(len(p) <= k for p in parts):
                break
        res.append(r)
    return res


ASSUME = [
    "seeded sampling of histories, schedules and faults: a clean batch is evidence, not proof",
    "JAX/XLA CPU kernels are deterministic with intra-op threading and asynchronous dispatch off",
    "the Rust extension cannot be built offline and is not exercised; the Python fallbacks are",
    "interrupts are delivered at line boundaries of package code and at the package's blocking waits, model faults at evaluations of the model",
]
_REAL = ["ormatex_py integrators, driver, operators and matrix functions (unmodified working tree of /repo)", "JAX, XLA, NumPy, SciPy, equinox"]
_STUB = ["thread scheduling, locks, queues, futures waits and clocks (simulated; CPython's own executor code runs on them)",
         "user model (harness systems built on the public OdeSys classes, with fault seams; shipped example systems run real)"]


def _info(rule, real=(), stub=()):
    return dict(rule=rule, real=_REAL + list(real), stub=_STUB + list(stub))


INFO = dict(
    C01=_info("a run is one random history of proposed, discarded and accepted steps on one integrator; non-trivial when at least one proposal was discarded and one accepted"),
    C02=_info("a run dirties an integrator with steps, faults and acceptances, re-initialises it and steps it beside a new one; non-trivial when at least one step preceded the re-initialisation"),
    C03=_info("a run arms faults at seeded points inside steps and repeats them fault-free; non-trivial when a fault fired and a later step was compared"),
    C04=_info("a run compares every accepted state with the reference scheme; non-trivial when at least one step was accepted"),
    C05=_info("a run executes multi-threaded steps under a seeded line-level schedule with stalls and faults; non-trivial when there were more than two context switches per step"),
    C06=_info("a run drives two to four integrators interleaved by a seeded scheduler and compares each with its solo run; non-trivial when they were switched between"),
    C07=_info("a run integrates through the driver with recording or failing callbacks, model faults and clock jumps; non-trivial when a callback, fault or jump was present", ["diffrax"]),
    C08=_info("a run kills an integration at seeded points, keeps only the durable records and resumes; non-trivial when it died at least once", ["diffrax"], ["record store (in memory, optionally losing the last record)"]),
    C09=_info("a run forces substep attempts to diverge or not converge and varies substep sizes and spectral estimates; non-trivial when an attempt was forced to fail or more than one attempt was made"),
    C10=_info("a run makes seeded model evaluations return NaN or infinity (inside compiled code too); non-trivial when at least one poisoned value was delivered"),
    C11=_info("a run feeds NaN, infinite and huge model values and step sizes and counts evaluations; non-trivial when a bad value was delivered or a fault fired"),
    C12=_info("a run tracks the conserved total, or the exact affine solution, over a random history with faults, retries and crashes; non-trivial when a step was accepted"),
    C13=_info("a run queries several live linearisations of several systems in random order, between failures and from several threads; non-trivial when operators were queried interleaved"),
    C15=_info("a run drives a method over a linear problem or an equilibrium through discarded and failing steps, crashes and returns to earlier records and compares every accepted state with the exact solution; non-trivial when a step was accepted"),
    C16=_info("a run drives a shipped transport, reaction or predator-prey problem through discarded and failing steps, crashes and returns, comparing every accepted state with the scheme on independently assembled equations; non-trivial when a step was accepted", ["scikit-fem"]),
    C17=_info("a run executes one history in a plain environment and again under jumping clocks, reseeded generators, broken output, other threads, evicted kernels, recycled memory, other work and other input types, and compares bits; non-trivial when at least one such disturbance was present and an operation succeeded", ["diffrax"]),
    C14=_info("a run gives every step its own model data, with discarded proposals, failures and interleaved integrators; non-trivial when non-zero data was used"),
)
