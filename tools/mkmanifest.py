#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
NOTE = ("Seeded sampling, not proof. Real: the package as in /repo's working tree, JAX, NumPy/SciPy. Simulated: thread scheduling, locks, waits, clocks; "
        "model evaluations carry fault seams. Every violation is minimised, written as a replay file and confirmed in a fresh process before it is reported. ")
C = {
 "C01": ("random propose/discard/accept histories against an integrator that saw only accepted steps", "Trusts bit reproducibility of XLA CPU kernels; Leja methods are compared to a tolerance."),
 "C02": ("faulted histories followed by re-initialisation, in lockstep with a new integrator", "Interrupts are delivered at line boundaries of package code."),
 "C03": ("exceptions, interrupts at seeded lines, failing thread starts inside steps; atomicity and repeatability oracles", "Interrupts are delivered at line boundaries of package code and while blocked."),
 "C04": ("random faulted histories with every accepted state checked against an independent reference of the schemes", "Trusts the NumPy/SciPy reference in sim/ref.py; tolerances cover Krylov, Leja, partial-fraction and finite-difference accuracy."),
 "C05": ("seeded line-level thread schedules, stalls and faults for the parallel stages against sequential execution", "Schedules switch at lines of package code, model evaluations and synchronisation operations; CPython's executor runs on simulated primitives."),
 "C06": ("seeded interleavings of several integrators and caller threads against solo runs", "Schedules switch at lines of package code and model evaluations; no switches inside XLA kernels."),
 "C07": ("driver runs with failing callbacks and models and clock jumps, records checked against the steps taken", "diffrax steps are checked against tableaux, the implicit equation or a one-step diffrax call."),
 "C08": ("crashes at seeded points with only recorded states surviving, resumed runs against uninterrupted ones", "The record store is a stub in memory that may lose the last record."),
 "C09": ("forced divergence patterns of substep attempts against exact propagation over the whole step", "Bad values are injected inside compiled loops through a callback seam; tolerance follows the requested one and the conditioning."),
 "C10": ("non-finite model evaluations at seeded points, also inside compiled kernels; poisoned steps against fault-free ones", "Bad values are NaN or infinity; dependency is decided by comparing with the fault-free result."),
 "C11": ("huge and non-finite model values and step sizes with counted work, then recovery", "Work is bounded by counted evaluations and, for code that stops evaluating, by processor time of a run (150 s, confirmed twice)."),
 "C12": ("conserved totals and independence of the partition of time over faulted, retried, crashed and resumed histories", "Tolerances cover rounding and the requested accuracy."),
 "C13": ("interleaved queries of many live linearisations between failures and from simulated threads", "Derivative references are the harness models' closed forms."),
 "C14": ("per-step model data in driver runs and interleaved steps with failures, against the scheme with that data built in", "Methods that do not take per-step data are listed in known-findings.json and checked for recording-only callbacks."),
 "C15": ("exact solutions of linear problems and equilibria over histories with discards, faults, crashes and returns to earlier records", "Exact solutions come from SciPy's expm; the allowed error is the linear algebra's accuracy propagated by the exact flow."),
 "C16": ("shipped transport and reaction systems over faulted histories against independently assembled equations and reference schemes", "The discretisation is re-assembled in NumPy (sim/transport.py); the mesh generator of scikit-fem runs for real."),
 "C17": ("the same history in a plain and in disturbed environments (clock jumps, reseeded generators, failing output, other threads, evicted kernels, recycled memory, other input types), compared bit for bit", "Trusts bit reproducibility of XLA CPU kernels; the hash seed and the hardware are fixed."),
}
NA = {
 "N01": "pure function of its input: no schedule, fault, clock or history to simulate; its use inside steps is covered through C04, C10, C12",
 "N02": "pure function of its input; its use inside steps is covered through C04 and C10",
 "N03": "pure function of its input; its use inside steps is covered through C09",
 "N04": "constant tables: nothing nondeterministic to simulate",
 "N05": "assembly is a pure function of mesh and parameters; the assembled systems are covered inside trajectories through C16",
 "N06": "closures are pure functions; the coupled systems are covered over histories through C12 and C16",
 "N07": "the Rust crate cannot be built offline (its dependencies are not in the cargo cache), so no real code could run in the simulator",
 "N08": "needs the Rust extension, which cannot be built offline",
 "N09": "demonstration scripts outside the library interface; they write to the current directory without any durability contract",
}
m = dict(version=1, setup_cmd="sh tools/setup.sh",
         checks=[dict(property=p, quick_cmd="bin/check %s --tier quick" % p, thorough_cmd="bin/check %s --tier thorough" % p,
                      technique=T + t, level="exploration", level_note=NOTE + n) for p, (t, n) in C.items()],
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="No hooks were added to /repo: threads, queues, futures, clocks and models are intercepted from outside (sim/boot.py). "
               "Replay: bin/check --replay FILE. Known findings and repaired defects: known-findings.json.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
