#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays editable)."""
import json, os
P = []
EXP, SYS, DRV, RK = "ormatex_py/ode_exp.py", "ormatex_py/ode_sys.py", "ormatex_py/integrate_wrapper.py", "ormatex_py/ode_explicit.py"
KRY, ARN, PHI, LEJA = "ormatex_py/matexp_krylov.py", "ormatex_py/arnoldi_jax.py", "ormatex_py/matexp_phi.py", "ormatex_py/matexp_leja.py"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "Proposed steps leave no trace until accepted",
     "Proposing a step never changes the time, state or accepted history an integrator reports, and the result of any later step does not depend on whether, how often or with which step sizes steps were proposed and then discarded before it (bit for bit, or within the requested tolerance for the Leja methods). "
     "Any proposal made from the current state may be the one that is accepted, also when others were computed after it. "
     "Accepting advances the integrator to exactly the proposed time and state.",
     ["histories", "configurations"],
     "Every interleaving of proposals with arbitrary step sizes, discards, late and out-of-order acceptances, for all methods and options, on autonomous and nonautonomous systems.",
     "The tests only run fixed-step propose-accept loops; no test ever discards a proposal, so state leaking from a rejected trial (cached operators, step-size controllers, multistep history) is invisible to them.",
     [EXP, SYS, RK],
     [("step returns a result object and does not commit it", SYS), ("accept_step is the only committing operation", SYS), ("dense operator cache keyed by step size", EXP)],
     [("t, t_hist, y_hist", "current time and accepted history", SYS), ("cached dense phi matrices", "operators of the last proposed step size", EXP), ("leja warm start", "power-iteration vector and substep size kept between steps", EXP)],
     ["time/state properties", "StepResult fields"])

prop("C02", "Re-initialising an integrator is the same as building a new one",
     "After an integrator is given a new initial time and state it behaves exactly like a newly built integrator with that initial condition: same restart of multistep schemes, same results, same times (bit for bit; within tolerance for Leja methods). "
     "This holds whatever happened to it before: accepted and rejected steps, step-size changes, steps that failed or were interrupted at any point, an interrupted acceptance or re-initialisation, or a state of a different size.",
     ["histories", "crash_points", "fault_sequences"],
     "Every earlier history, including ones ended by a fault or interrupt at an arbitrary point, all methods.",
     "No test re-initialises an integrator at all.",
     [EXP, SYS, RK],
     [("reset_ic clears history", SYS), ("reset_ic override drops cached operators", EXP)],
     [("t_hist, y_hist", "accepted history", SYS), ("cached step size / dense operators / leja warm start", "must not survive a reset", EXP)],
     ["results of steps after reset versus a fresh integrator"])

prop("C03", "A failed or interrupted step is reported, atomic and repeatable",
     "When the user's model raises, memory runs out, a worker thread cannot be started or the step is interrupted at any instruction, the failure reaches the caller unchanged in kind, and the integrator still reports the last accepted time, state and history. "
     "Once the fault is gone, repeating the step, or taking any other step, gives the result it would have given had the failed attempt never been made (bit for bit; within tolerance for Leja methods).",
     ["crash_points", "fault_sequences", "histories"],
     "Every evaluation of the model and every executed line of a step as failure point, every method, any history before and after, several failures in a row.",
     "The tests contain no failing model and no interrupt.",
     [EXP, SYS, RK, KRY],
     [("step commits nothing before it returns", EXP), ("two-stage executor propagates stage exceptions", EXP), ("dense operator cache update", EXP)],
     [("cached step size and operators", "written during a step", EXP), ("leja warm start", "written during a step", EXP)],
     ["exception type at the caller", "time/state/history after the failure", "subsequent steps"])

prop("C04", "Every accepted state is the one the documented scheme prescribes",
     "Whatever the history of step sizes, rejections, failures and re-initialisations, each accepted state equals the update the method's documented formula gives from the last accepted state (and, for multistep methods, the one accepted before it), within the accuracy of the chosen linear algebra. "
     "This includes nonautonomous systems, all ways of supplying the Jacobian, split operators, and reduced Krylov dimension or incomplete orthogonalisation. "
     "The time reached is the initial time plus the accepted step sizes.",
     ["histories", "configurations", "inputs"],
     "Random operation histories over all methods, options, system sizes, stiffness levels and Jacobian forms, each accepted step compared with an independent reference implementation.",
     "The tests check global convergence of some methods on two problems with one constant step size; a wrong history entry after a rejection, reset or step-size change, or a wrong term that vanishes there, is not sampled.",
     [EXP, RK, KRY, ARN, PHI, LEJA, SYS],
     [("per-method step formulas", EXP), ("phi-vector products by Arnoldi", KRY), ("remainder function", SYS)],
     [("y_hist, t_hist", "states the multistep schemes read", SYS)],
     ["StepResult.y, .t, .dt of every accepted step"])

prop("C05", "Parallel stages: any thread schedule gives the same step",
     "A step whose stages are computed by worker threads returns the same bits under every scheduling of those threads, equal to computing the stages one after the other. "
     "If a stage fails, that failure reaches the caller, and when a step has returned or raised none of its stage work is still running or starts later. "
     "No schedule deadlocks.",
     ["schedules", "fault_sequences"],
     "Every interleaving of caller and stage threads at line and model-evaluation granularity, with stalled stages, failing stages and interrupted callers.",
     "The tests run one uncontrolled OS schedule with fast, non-failing stages.",
     [EXP], [("two-worker executor and futures", EXP)],
     [("executor", "thread pool owned by each integrator", EXP)],
     ["StepResult.y", "model evaluations observed after the step ended"],
     "none: threading primitives are replaced when the package is imported")

prop("C06", "Independent integrators do not influence each other",
     "Integrators that are used side by side, interleaved in one thread or from several caller threads, each produce exactly the results they produce alone, even when they share the system object, the initial state, the method and the step size, and even when another one fails, is re-initialised or is discarded. "
     "The arrays and options a caller passes in or has been given back are never modified.",
     ["schedules", "histories"],
     "Every interleaving, at line granularity, of two to four integrations with equal or different methods, systems, sizes and step sizes.",
     "Every test runs one integration at a time.",
     [EXP, SYS, RK, DRV, KRY],
     [("all step state is per instance", EXP), ("jit caches keyed on arguments only", EXP)],
     [("instance caches, module-level jit caches", "must not leak between integrators", EXP)],
     ["trajectories of each integration versus its solo run", "caller-owned arrays"])

prop("C07", "The integration driver reports exactly the steps it took",
     "Integrating for N steps returns N+1 times and states starting with the given initial condition, with consecutive times one step apart, each state being the accepted result of the step that ends at its time. "
     "For the package's own integrators, user callbacks run once per step: before the step with the state and time it starts from and after acceptance with the ones it reached, and their results are returned in order. "
     "This holds for every method under wall-clock jumps, a failing callback or model ends the integration with that error, and a method name the driver does not know is refused before any work is done.",
     ["histories", "fault_sequences", "configurations"],
     "All methods of the driver, any start time, step size sign and count, callbacks present, absent, failing at any step, any jump of the wall clock.",
     "The tests call the driver with t0=0, no callbacks and no faults.",
     [DRV, EXP, RK],
     [("stepping loop with callbacks", DRV), ("method dispatch", DRV)],
     [("result lists", "times, states, callback results", DRV)],
     ["IntegrateResult", "recorded callback invocations"])

prop("C08", "A run can be stopped after any step and resumed from its records",
     "If a run dies after any step, starting a new one from the last recorded time and state and completing the remaining steps gives the same final trajectory as the uninterrupted run. "
     "It is identical up to rounding for one-step methods of every kind, and for multistep methods it is the trajectory of the documented restart.",
     ["crash_points", "histories"],
     "Every crash point of a run, repeated crashes, any start time including negative and nonzero ones, every method of the driver, autonomous and nonautonomous systems.",
     "No test starts anywhere but at time zero or resumes anything.",
     [DRV, EXP, RK], [("driver takes an arbitrary start time and state", DRV)],
     [("recorded (t, y)", "the only state that survives a crash", DRV)],
     ["concatenated results versus uninterrupted results"])

prop("C09", "Adaptive substeps always cover the whole step or fail loudly",
     "When the polynomial propagator subdivides a step because attempts diverge or fail to converge, a returned result is the propagation over exactly the requested step within the requested tolerance, for any pattern of failing and succeeding attempts, any initial substep size and any spectral estimate whose interval the configured number of points can resolve (imaginary half-width times step below the number of points). "
     "Otherwise the step raises; an unconverged result is never returned as a step. An undisturbed small step does not raise. "
     "The number of attempts is bounded.",
     ["fault_sequences", "histories", "inputs"],
     "All patterns of transient failures of attempts, spectral estimates wrong by large factors, substep sizes carried over from earlier steps, substepping on and off, both propagators.",
     "One test exercises one natural substep pattern with a fixed matrix.",
     [LEJA, EXP],
     [("substep loop with shrink and clip", LEJA), ("convergence flag checked by the integrator", EXP)],
     [("substep size", "carried between steps", EXP)],
     ["step result versus exact propagation", "exceptions", "matvec counts"])

prop("C10", "A bad model evaluation never becomes a finite-looking step",
     "If any evaluation of the right-hand side, Jacobian, time derivative or operator product that a step depends on yields a non-finite value, the step either raises or returns a state that is visibly non-finite. "
     "It never returns finite values that differ from the fault-free result, and in particular never silently leaves the state unchanged.",
     ["fault_sequences", "crash_points"],
     "NaN or infinity in one or all components of any single evaluation at any point of any step of any method, fully jitted and evaluated eagerly.",
     "No test evaluates a model that returns a non-finite value.",
     [EXP, KRY, ARN, LEJA, SYS, PHI],
     [("zero-vector shortcuts of the phi-vector products", KRY), ("nonautonomous correction threshold", EXP), ("convergence test of the polynomial propagator", LEJA)],
     [], ["StepResult.y versus the fault-free result", "exceptions"])

prop("C11", "Every step ends within bounded work and progress resumes after faults",
     "A step returns or raises after a bounded number of model evaluations and operator products, whatever finite, huge, infinite or NaN values the model supplies, whatever the step size, and however threads are scheduled. "
     "After the faults stop, the next steps succeed, at most after a re-initialisation if a non-finite state had been accepted.",
     ["fault_sequences", "schedules", "inputs"],
     "All methods with non-finite and overflowing evaluations, zero vectors, zero and negative step sizes, stalled or failed stages.",
     "The tests use only well-scaled finite inputs.",
     [EXP, KRY, ARN, PHI, LEJA],
     [("bounded Arnoldi loop", ARN), ("scaling and squaring count", PHI), ("substep cap and power iteration cap", LEJA)],
     [], ["completion of each step", "evaluation counts", "CPU time of a run"])

prop("C12", "Conserved totals stay conserved under any step history",
     "For closed reaction networks (decay chains with branching, reversible exchange, mass transfer between phases) every method keeps the conserved total of the state constant to rounding, for any sequence of step sizes, rejections, retries after faults, crashes and resumptions. "
     "For affine systems how an interval is divided into steps does not change the state the exponential methods give at its end.",
     ["histories", "fault_sequences", "inputs"],
     "Random closed networks, random partitions of time, all methods, faults between and inside steps.",
     "The regression test compares one chain with constant steps to a loose tolerance.",
     [EXP, RK, KRY, LEJA, "ormatex_py/progression/bateman_sys.py", "ormatex_py/progression/bateman_nonlin_sys.py"],
     [("update formulas preserve linear invariants", EXP), ("network matrix assembly", "ormatex_py/progression/bateman_sys.py")],
     [], ["sum of the state after every accepted step", "end states of different partitions"])

prop("C13", "A linearisation is a fixed snapshot of the system at its point",
     "The operator a system returns for its Jacobian at some time and state keeps answering for that point: products, dense form, time derivative and stored right-hand side stay mutually consistent and repeatable, no matter how many other linearisations, steps, failures or threads come in between and in what order they are queried. "
     "All ways of supplying the Jacobian describe the same derivative.",
     ["histories", "schedules", "fault_sequences"],
     "Random interleavings of queries on several live operators of several systems and threads, with failing evaluations in between.",
     "The tests never hold two linearisations at once or query one after anything else happened.",
     [SYS], [("immutable operator modules with cached right-hand side", SYS), ("automatic, supplied and finite-difference Jacobians", SYS)],
     [("cached right-hand side, linearisation point", "captured at construction", SYS)],
     ["operator products, dense(), time derivative, cached right-hand side"])

prop("C14", "Per-step model data applies to exactly the step it was given for",
     "Data returned by the before-step callback is what every right-hand side and Jacobian evaluation of that step sees, in all stages, and no evaluation of another step sees it, also when steps fail and are retried or integrations are interleaved. "
     "Recording-only callbacks do not change the trajectory of any method.",
     ["histories", "schedules", "fault_sequences"],
     "All methods of the driver, changing data per step, failures and interleavings in between.",
     "No test uses a before-step callback.",
     [DRV, EXP, SYS, RK],
     [("driver passes callback result into the step", DRV), ("step forwards it to the linearisation and residual", EXP)],
     [], ["data seen by each model evaluation", "trajectory versus a system with the data built in"])

prop("C15", "Linear problems and equilibria are solved exactly under any step history",
     "On problems whose solution its formula reproduces, a method returns the exact solution for every step size and sign, up to its linear algebra: linear systems with constant sources for all exponential methods, with sources linear in time for those of second order and above, and any equilibrium of a nonlinear system for every method including the explicit Runge-Kutta one. "
     "Errors do not accumulate beyond what the flow itself does, whatever steps were discarded, failed, repeated after a crash or taken after going back to an earlier record, from any start time.",
     ["histories", "fault_sequences", "inputs"],
     "All methods; random stable, oscillating and stiff linear systems, decay chains and discretised transport; equilibria of nonlinear systems with arbitrary split operators; random step histories with faults.",
     "The tests compare a few methods with one constant step size on one scalar and one 3x3 problem; none goes back in time, fails or restarts.",
     [EXP, SYS, RK, KRY, ARN, PHI, LEJA, "ormatex_py/progression/bateman_sys.py", "ormatex_py/progression/advection_diffusion_1d.py"],
     [("phi-function update formulas", EXP), ("phi-vector products", KRY), ("dense phi functions", PHI)],
     [("accepted history of multistep methods", "must not spoil exactness at a restart", SYS)],
     ["every accepted (t, y) versus the exact solution"])

prop("C16", "Shipped reactive transport problems follow their equations under any history",
     "The shipped spectral-element transport systems with their reaction networks (one, two, three and nine species, fixed inflow or periodic) and reaction and predator-prey problems can be integrated by every method that applies, and each accepted state is the one the method prescribes for the stated equations. "
     "Constant inflow values stay put and closed periodic loops keep their total amount. "
     "This holds for any element order, mesh, coefficients, start time and step history with discarded, failed, repeated and restarted steps.",
     ["histories", "fault_sequences", "configurations"],
     "Random element orders, meshes, velocities, diffusion, stabilisation, boundary conditions, initial fields, methods and faulted step histories, compared with an independently assembled discretisation.",
     "The only test of these systems compares one nine-species run with stored numbers for two methods; most shipped systems are never stepped by most methods.",
     ["ormatex_py/progression/advection_diffusion_1d.py", "ormatex_py/progression/element_line_pp_nodal.py", "ormatex_py/progression/rad_1d_2s.py", "ormatex_py/progression/rad_1d_3s.py", "ormatex_py/progression/rad_1d_9s.py",
      "ormatex_py/progression/bateman_sys.py", "ormatex_py/progression/bateman_nonlin_sys.py", "ormatex_py/progression/species_source_sink.py", EXP],
     [("lumped mass spectral elements", "ormatex_py/progression/advection_diffusion_1d.py"), ("transport plus reaction right-hand sides", "ormatex_py/progression/rad_1d_3s.py"), ("network matrix assembly", "ormatex_py/progression/bateman_sys.py")],
     [("assembled operators, inflow values", "captured when the system is built", "ormatex_py/progression/advection_diffusion_1d.py")],
     ["accepted states of each step", "inflow values", "total amounts"])

prop("C17", "A run is a function of its inputs",
     "The same system, initial condition, method, options and sequence of steps give bit for bit the same times and states, whatever else is going on: clocks that jump, global random generators in any state, output that cannot be written, the calling thread, the number of processors, evicted compiled kernels, memory reused from earlier systems, garbage collection, other work in the process. "
     "The array or scalar type in which the caller supplies the initial state, start time and step size does not matter either. "
     "A step that fails because its diagnostics cannot be written changes nothing and gives the same result when repeated.",
     ["histories", "fault_sequences", "schedules"],
     "All methods of the driver and user integrators, integrators and whole driver runs, each history in a plain and in two disturbed environments.",
     "No test runs anything twice; none disturbs clocks, output, threads or memory.",
     [DRV, EXP, SYS, RK, LEJA, KRY],
     [("driver times its runs", DRV), ("substep diagnostics are printed", LEJA), ("stages on a thread pool", EXP)],
     [("cached operators and substep sizes", "must depend on the run's own history only", EXP)],
     ["every proposal, accepted state and driver record, bitwise, plain versus disturbed"])

NA = [
 ("N01", "phi-functions of dense matrices are accurate", "The dense phi-function evaluations agree with their defining series to near machine precision for every matrix.",
  [PHI], "Tests sample a few matrices."),
 ("N02", "Arnoldi returns an orthonormal basis and satisfies its relation", "For every operator and start vector the Krylov basis is orthonormal and reproduces the operator on the subspace.",
  [ARN], "One random matrix is sampled."),
 ("N03", "Leja sequences and divided differences are accurate", "Generated point sequences are Leja ordered on their domain and divided differences of the exponential are accurate for every scale and shift.",
  [LEJA, "ormatex_py/matexp_poly.py"], "A handful of parameter sets are sampled."),
 ("N04", "Partial fraction tables approximate the exponential", "Each shipped rational approximation attains its stated accuracy on the negative real axis.",
  ["ormatex_py/matexp_phi_pfd_dict.py"], "A few matrices are sampled."),
 ("N05", "Spectral element assembly discretises advection-diffusion", "Assembled operators converge at the expected order for any mesh and boundary condition (what they do inside trajectories is C16).",
  ["ormatex_py/progression/advection_diffusion_1d.py", "ormatex_py/progression/element_line_pp_nodal.py"], "Not tested."),
 ("N06", "Species source and sink closures have the right signs and limits", "Mass-transfer closures vanish at equilibrium and move mass from high to low potential for all inputs (what they do inside trajectories is C12 and C16).",
  ["ormatex_py/progression/species_source_sink.py"], "Not tested."),
 ("N07", "Rust integrators follow their schemes under any history", "The native BDF, Rosenbrock and exponential integrators accept, reset and recover like the Python ones.",
  ["src/ode_bdf.rs", "src/ode_epirk.rs", "src/ode_rk.rs"], "Crate tests sample fixed-step runs."),
 ("N08", "Python bindings and native integrators agree", "A Python-defined system integrated through the native path gives the same trajectory as the Python path.",
  ["src/lib.rs", DRV], "Not tested without the extension."),
 ("N09", "Example programs write complete result files", "Demonstration scripts leave complete plots and tables or an error.",
  ["ormatex_py/progression/rad_1d_3s.py", "ormatex_py/progression/rad_1d_9s.py"], "Not tested."),
]
for i, t, s, f, w in NA:
    prop(i, t, s, ["inputs"], "All inputs.", w, f, [("see files", f[0])])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
