"""What each check is, without importing anything heavy."""

REAL = [
    "rkopenmdao (all of it, from /repo/src)", "OpenMDAO", "pyrevolve (incl. its C++ core)",
    "numpy",
]
STUB = [
    "user components (generated ODEs, every call a fault point)",
    "user callbacks (recorders, every call a fault point)",
]
BASE_ASSUMPTIONS = [
    "reference model and generated user components share the mathematics of the ODE, "
    "nothing else",
    "floating point agreement is judged with a relative tolerance of 1e-9 (1e-7 where "
    "an iterative solver of OpenMDAO is involved), 100 times that in adaptive runs",
    "adaptive runs: the reference follows the step sizes of a pristine integrator; "
    "whether these are right is decided by P06",
]
STATE = (
    "(checkpointer, previous operation and whether it failed, operation, same input "
    "point as before, fault fired, adaptive)"
)
RULE = (
    "one run is one generated scenario (ODE, tableau, checkpointer, step control, history "
    "of operations, faults) from one seed; non-trivial if at least one operation was "
    "compared against the oracle, distinct by the abstract history (configuration kinds, "
    "order of operations, points, outcomes and faults, without numerical values)"
)


def entry(title, quick_runs, **kw):
    out = {
        "title": title, "quick_runs": quick_runs, "quick_cap": 300, "run_wall": 120,
        "env": {}, "rule": RULE, "state_measure": STATE, "real": REAL, "stub": STUB,
        "assumptions": BASE_ASSUMPTIONS,
    }
    out.update(kw)
    return out


REGISTRY = {
    "P01": entry("Primal results are the Runge-Kutta solution, whatever happened before",
                 1000),
    "P02": entry("Forward derivatives are the tangent of the run, whatever happened before",
                 900),
    "P03": entry("Reverse derivatives are the exact adjoint for every checkpointing", 800),
    "P04": entry("A failed operation leaves nothing behind", 1600),
    "P05": entry("Failing checkpoint storage never gives silently wrong derivatives", 1400),
    "P06": entry("Adaptive steps obey tolerance, bounds and the configured controller", 3000),
    "P07": entry("Step sequence depends on inputs only, and derivatives replay it", 1000),
    "P08": entry("Every run ends: exact step counts, end times, bounded attempts", 3000),
    "P09": entry("Callbacks see every step once, in order, with the state of the run", 1500),
    "P10": entry("HDF5 output holds exactly the due steps of the last run", 1000),
    "P11": entry("HDF5 output holds complete, right steps after any fault or crash", 1100),
    "P12": entry("Integrators in one process do not influence each other", 900),
    "P13": entry("Setup can be repeated, also with changed options", 900),
    "P14": entry("Snapshots of the state are complete, independent, and restart a run", 2000),
    "P15": entry("Integrators keep the contract of OpenMDAO inside larger models", 640),
    "P16": entry("Results do not depend on ranks, distribution or schedule", 640,
                 env={"OPENMDAO_USE_MPI": "1"},
                 stub=STUB + ["MPI communicators and PETSc scatters (simulated, all ranks "
                              "in one process under a seeded scheduler)"]),
    "P17": entry("HDF5 output of several ranks equals that of one", 700,
                 env={"OPENMDAO_USE_MPI": "1"},
                 stub=STUB + ["MPI communicators and PETSc scatters (simulated, all ranks "
                              "in one process under a seeded scheduler)"]),
    "P18": entry("Steps act on the state they are given, and derivatives are theirs", 4500),
    "P19": entry("Progress reports are true", 1500,
                 env={"OPENMDAO_USE_MPI": "1"},
                 stub=STUB[:1] + ["clock", "standard output", "MPI communicators and PETSc "
                                  "scatters in runs with several ranks"]),
    "P20": entry("Experiment files hold exactly the experiment they are named after", 300,
                 env={"OPENMDAO_REPORTS": "0"},
                 real=REAL + ["h5py", "shipped problems (Kaps, Prothero-Robinson)"],
                 stub=["creation of directories and HDF5 accesses fail where the scenario "
                       "says so, otherwise real, in a scratch directory"]),
}
