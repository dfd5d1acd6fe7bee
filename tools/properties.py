#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/properties.py"""

import json
import pathlib
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
from sim.registry import REGISTRY  # noqa: E402

S = "src/rkopenmdao/"
RKI = S + "runge_kutta_integrator.py"
OMODE = S + "discretized_ode/openmdao_ode.py"
RK = S + "time_discretization/stage_ordered_runge_kutta_discretization.py"
RKSTATE = S + "time_discretization/runge_kutta_discretization_state.py"
TIS = S + "time_integration_state.py"
EC, ECS, EM = S + "error_controller.py", S + "error_controllers.py", S + "error_measurer.py"
TERM = S + "termination_criterion.py"
CB, FW = S + "callback.py", S + "file_writer.py"
ALLC = S + "checkpoint_interface/all_checkpointer.py"
PYR = S + "checkpoint_interface/pyrevolve_checkpointer.py"
PYRC = S + "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py"
NOC = S + "checkpoint_interface/no_checkpointer.py"
META = S + "metadata_extractor.py"
COMP = S + "components.py"


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = {
    "P01": dict(
        statement=(
            "Running the integration returns exactly the final state and final time that "
            "result from applying the configured Runge-Kutta scheme step by step to the "
            "user's ODE, from the given initial values, time-independent inputs and "
            "initial time, and passing over nothing the ODE returned. This does not "
            "depend on what the same integrator computed, differentiated or failed at "
            "before."
        ),
        over=["inputs", "histories", "configurations", "fault_sequences"],
        text=(
            "all ODEs (explicit, implicit and coupled stages, any shapes, time-dependent or "
            "not, with parameters, with integrated outputs that are not inputs), all "
            "stage-ordered tableaux, step sizes, step counts or end times, all histories "
            "of earlier runs, derivative computations and failures"
        ),
        why=(
            "the tests run fresh integrators on a few ODEs once; they do not repeat runs at "
            "changing inputs, mix them with derivatives, or let user code fail in between"
        ),
        files=[RKI, OMODE, RK, RKSTATE],
        mechanism=mech(
            ("forward iteration and checkpointer callbacks", RKI),
            ("stage loop and accumulation", RK), ("exchange with the stage problem", OMODE)),
        observe=["integrator outputs after compute", "Problem.run_model/get_val"],
    ),
    "P02": dict(
        statement=(
            "Forward-mode derivatives equal the exact tangent of the Runge-Kutta run at the "
            "current inputs (step sizes taken as constants) for every perturbation of "
            "initial values, time-independent inputs and initial time. They do not depend "
            "on earlier runs, derivative computations in either mode, or failures."
        ),
        over=["inputs", "histories", "configurations", "fault_sequences"],
        text="as for the primal run, times all perturbation directions",
        why=(
            "check_partials in the tests linearises once, right after one run, at one point "
            "per configuration"
        ),
        files=[RKI, OMODE, RK, RKSTATE],
        mechanism=mech(
            ("forward-mode iteration along its own primal run", RKI),
            ("stage derivative with linearisation point", RK),
            ("linear solve of the stage problem", OMODE)),
        observe=["compute_jacvec_product in fwd mode", "Problem.compute_totals"],
    ),
    "P03": dict(
        statement=(
            "Reverse-mode derivatives equal the exact adjoint (transpose of the tangent) of "
            "the Runge-Kutta run at the current inputs, whatever checkpointing strategy, "
            "number of checkpoints and storage is configured. They do not depend on earlier "
            "runs, on how often and at which inputs derivatives were asked for, or on "
            "failures in between."
        ),
        over=["inputs", "histories", "configurations", "fault_sequences"],
        text=(
            "all ODEs, tableaux, step counts, checkpointing strategies with all their "
            "options, adjoint directions, and histories of runs, tangents, adjoints and "
            "failures on one integrator"
        ),
        why=(
            "tests compare modes once per configuration right after a run; stale checkpoints, "
            "reuse decisions and rarely used checkpoint counts need particular histories"
        ),
        files=[RKI, OMODE, RK, ALLC, PYR, PYRC],
        mechanism=mech(
            ("decision whether stored checkpoints belong to the inputs", RKI),
            ("checkpoint schedules", PYR), ("operators of the checkpoint schedule", PYRC),
            ("adjoint of one step", RK)),
        observe=["compute_jacvec_product in rev mode", "Problem.compute_totals"],
    ),
    "P04": dict(
        statement=(
            "When user code (a component of the stage problem or a callback) fails at any "
            "point of a run or of a derivative computation, by an exception, a failed "
            "solve, an interrupt or a failing allocation, the failure reaches the caller, "
            "and every later operation on the same integrator returns what a fresh "
            "integrator would return. Invalid numbers (NaN) returned by user code do not "
            "spoil later operations either."
        ),
        over=["fault_sequences", "crash_points", "histories", "configurations"],
        text=(
            "all points of failure in primal, tangent and adjoint computations, all kinds "
            "of failure, all histories before and after, all checkpointing strategies"
        ),
        why="no test lets user code fail in the middle of an operation and goes on",
        files=[RKI, OMODE, ALLC, PYR, PYRC, RK],
        mechanism=mech(
            ("validity of checkpoints after failed iterations", RKI),
            ("state kept by checkpointers", PYR),
            ("vectors of the stage problem", OMODE)),
        observe=["values and exceptions of operations after the failed one"],
    ),
    "P05": dict(
        statement=(
            "If storing or loading checkpoints fails (full disk, I/O error, torn or lost "
            "write, removed files, failing allocation), a derivative computation raises an "
            "error or returns the right derivatives, never silently wrong ones. Once the "
            "storage works again, all operations return right values again. Checkpoint "
            "files of one integrator are never used or destroyed by another one."
        ),
        over=["fault_sequences", "crash_points", "histories", "schedules"],
        text=(
            "all accesses to checkpoint storage at which something can go wrong, all "
            "schedules of the clock and of garbage collection, all histories"
        ),
        why=(
            "tests use checkpoint storage that always works, one integrator at a time; name "
            "clashes depend on the clock and deletion on the garbage collector"
        ),
        files=[PYR, PYRC, RKI],
        mechanism=mech(
            ("creation of revolver and storage", PYR),
            ("serialisation of states into checkpoints", PYRC),
            ("validity of checkpoints", RKI)),
        observe=["reverse-mode values and exceptions"],
    ),
    "P06": dict(
        statement=(
            "In adaptive runs, a step is accepted exactly if its measured error is within "
            "the tolerance or its size is at the configured lower bound; a rejected step is "
            "repeated from the same state and time with a smaller size. Every size "
            "attempted is the initial one or one the configured controllers suggest "
            "from the errors and sizes of this attempt and of the accepted steps before it, "
            "limited to the configured bounds and the remaining time."
        ),
        over=["inputs", "histories", "configurations", "fault_sequences"],
        text=(
            "all ODEs (including disturbances of single stage evaluations that force "
            "sequences of rejections), embedded tableaux, controllers and chains of "
            "controllers, measures, tolerances and bounds, at every step of every run"
        ),
        why=(
            "tests look at final values of smooth problems and at single calls of a "
            "controller; sequences of rejections, fallback controllers and states carried "
            "over from step to step are not sampled"
        ),
        files=[EC, ECS, EM, RK, RKI, TIS],
        mechanism=mech(
            ("accept/reject loop with fallback controllers", EC),
            ("parameters of the controllers", ECS), ("error measures", EM),
            ("error estimate of a step", RK), ("histories of errors and step sizes", TIS)),
        observe=["stage evaluations seen by user code", "states shown to callbacks"],
    ),
    "P07": dict(
        statement=(
            "The sequence of steps an adaptive run takes depends on inputs and options only, "
            "not on earlier runs, derivative computations or failures on the same "
            "integrator. Tangents and adjoints, including steps recomputed for "
            "checkpointing, go through exactly this sequence."
        ),
        over=["inputs", "histories", "configurations", "fault_sequences"],
        text="all adaptive configurations, all histories of operations and failures",
        why=(
            "needs the step sizes inside derivative computations, after histories that leave "
            "controllers and step size histories in unusual states"
        ),
        files=[RKI, EC, TIS, PYRC, ALLC],
        mechanism=mech(
            ("initialisation of step control for every run", RKI),
            ("state kept by controllers", EC),
            ("step sizes and histories inside checkpoints", PYRC)),
        observe=["states shown to callbacks of all three kinds"],
    ),
    "P08": dict(
        statement=(
            "A run with a given number of steps takes exactly that number; a run with a "
            "given end time takes steps until the end time is reached and none after it, "
            "and adaptive runs end exactly there. Time strictly advances with every step, "
            "and every run ends, by reaching its end or by an error, within "
            "the number of attempts its controllers need."
        ),
        over=["inputs", "configurations", "fault_sequences"],
        text=(
            "all step counts, end times (also before the initial time), step sizes, ODEs "
            "with disturbed or invalid stage values, controllers and bounds"
        ),
        why="liveness and exact ends for all combinations can't be sampled by few examples",
        files=[TERM, RKI, EC, ECS],
        mechanism=mech(
            ("termination criteria", TERM), ("limits of step sizes", EC),
            ("iteration with remaining time", RKI)),
        observe=["steps shown to callbacks", "stage evaluations", "final time"],
    ),
    "P09": dict(
        statement=(
            "During a run, a tangent or an adjoint computation, the callbacks registered for "
            "that kind are called before and after every accepted step, in the order of "
            "registration, steps ascending (descending in adjoints), with the number of "
            "the step and the state and times belonging to it; primal callbacks are also "
            "called for steps recomputed for an adjoint, others are not called. A failing "
            "callback ends the operation with its own exception at that very point."
        ),
        over=["histories", "configurations", "fault_sequences"],
        text="all configurations, histories, numbers of callbacks and failing calls",
        why="tests count calls in single runs; order, pairing and content under failures "
            "and recomputation are not looked at",
        files=[CB, RKI, PYRC, ALLC],
        mechanism=mech(("callback container", CB), ("calls around every step", RKI),
                       ("recomputed steps", PYRC)),
        observe=["everything callbacks are shown"],
    ),
    "P10": dict(
        statement=(
            "After a run, an HDF5 output file contains exactly the initial values and the "
            "due steps (multiples of the output period) of the last run, each with time, "
            "all quantities in their shape and, for embedded schemes, the error measure; "
            "derivative computations (including steps recomputed for checkpointing) and "
            "earlier runs do not change or leave anything in it. The reading functions "
            "return exactly what the file contains, the error of the last step, and the distance "
            "to a given solution evaluated with the initial values of all quantities."
        ),
        over=["histories", "configurations", "inputs"],
        text="all histories, output periods, numbers of steps, schemes, shapes",
        why="tests read the file after one run with a fresh file, without adjoints",
        files=[FW, RKI, PYRC],
        mechanism=mech(("HDF5 callback", FW), ("readers", FW)),
        observe=["content of HDF5 files, results of the readers"],
    ),
    "P11": dict(
        statement=(
            "Whatever fails during a run (user code, another callback, creating or writing "
            "the file) and whenever the process dies between two writes, the HDF5 output "
            "file is readable, contains only complete steps with right values of the run "
            "it belongs to, and all due steps whose output was finished before. A "
            "later run writes a complete file again."
        ),
        over=["crash_points", "fault_sequences", "histories", "configurations"],
        text="all failing accesses and user calls, all crash points outside of file access",
        why="no test lets anything fail while a file is written",
        files=[FW, RKI],
        mechanism=mech(("creation and removal of steps", FW)),
        observe=["content of the file after failures, crash images of it"],
    ),
    "P12": dict(
        statement=(
            "Several integrators in one process do not influence each other's results, even "
            "if they share option objects (configuration, controllers, measures, checkpoint "
            "options), if their operations are interleaved in any order, fail, or are "
            "nested inside each other's callbacks."
        ),
        over=["schedules", "histories", "configurations", "fault_sequences"],
        text="all interleavings of operations on two or three integrators, twins included",
        why="every test has one integrator at a time and option objects of its own",
        files=[RKI, EC, EM, PYR, RK, S + "integration_config.py"],
        mechanism=mech(("own instances of all parts with state", RKI),
                       ("own storage and options", PYR), ("own controller state", EC)),
        observe=["values returned by every integrator"],
    ),
    "P13": dict(
        statement=(
            "Setting up the enclosing problem again, with unchanged or changed options "
            "(tableau, step size, checkpoints, controllers, callbacks, stage problem), at "
            "any point of its life (also after failures) gives an integrator that behaves "
            "like a fresh one with the current options; nothing of the earlier setup shows."
        ),
        over=["histories", "configurations", "fault_sequences"],
        text="all sequences of operations, failures, option changes and setups",
        why="no test sets up an integrator twice with something in between",
        files=[RKI, PYR, ALLC, EC],
        mechanism=mech(("everything (re)created in setup", RKI),
                       ("creation of checkpointers", PYR)),
        observe=["values after a repeated setup"],
    ),
    "P14": dict(
        statement=(
            "A copy of the integration state taken in a callback (through its dictionary "
            "form, in memory or written out and read back) holds exactly the state of "
            "that moment and never changes afterwards. A run restarted from such a copy, "
            "e.g. after a crash, arrives at the result of the uninterrupted run."
        ),
        over=["crash_points", "histories", "configurations", "inputs"],
        text="all steps at which a copy is taken, all moments of the crash, all schemes",
        why="tests convert hand-made states back and forth, no states of running "
            "integrations that go on changing",
        files=[TIS, RKSTATE, RKI],
        mechanism=mech(("conversion to and from dictionaries", RKSTATE),
                       ("conversion of step control data", TIS)),
        observe=["content of the copies, result of restarted runs"],
    ),
    "P15": dict(
        statement=(
            "Inside a larger model (connected components, several integrators in a row, "
            "feedback loops, any linear solver), run_model and compute_totals for any "
            "selection of outputs and inputs in both modes give the results of the chain "
            "rule. A derivative product is added to what the result vector contains, and "
            "changes neither inputs nor seed."
        ),
        over=["programs", "histories", "configurations", "fault_sequences"],
        text="all models around the integrator, solvers, selections and histories",
        why="tests put the integrator alone into a problem, with all variables in scope",
        files=[RKI],
        mechanism=mech(("matrix-free products", RKI),
                       ("transfer between vectors and arrays", RKI)),
        observe=["run_model, compute_totals, raw products"],
    ),
    "P16": dict(
        statement=(
            "With several MPI ranks, for every way to distribute the quantities and "
            "independent inputs (replicated, distributed by rows, no rows on some ranks, "
            "existing on some ranks only) "
            "and every order in which the ranks run, the integrator gives the values, "
            "steps and derivatives of a serial run. All ranks take the same steps, make "
            "the same decisions and agree on replicated values and on norms; no rank waits for one that "
            "does not come, whatever was called, failed on all ranks or changed on one "
            "rank before."
        ),
        over=["schedules", "histories", "configurations", "fault_sequences"],
        text="all numbers of ranks, distributions, schedules of ranks, histories of calls "
             "and failures that happen on all ranks",
        why="tests run on one rank, or with two ranks, one distribution and whatever "
            "schedule the MPI library happens to produce; a deadlock only needs inputs that "
            "differ on one rank",
        files=[RKI, S + "metadata_extractor.py", S + "discretized_ode/openmdao_ode.py"],
        mechanism=mech(
            ("global sizes and shapes", S + "metadata_extractor.py"),
            ("global norm", S + "discretized_ode/openmdao_ode.py"),
            ("collective decision to recompute checkpoints", RKI)),
        observe=["compute, run_model, fwd and rev products and totals on each rank",
                 "steps seen by callbacks on each rank", "deadlocks, mismatched collectives"],
    ),
    "P17": dict(
        statement=(
            "Several ranks writing HDF5 output together, in any order, leave the file a "
            "serial run leaves: each due step once, with time, error measure and the "
            "global value of each quantity, wherever its rows live. Files and datasets are "
            "opened, created and removed by all ranks alike; after a failure on all ranks "
            "the file holds complete steps only."
        ),
        over=["schedules", "histories", "configurations", "fault_sequences"],
        text="all numbers of ranks, distributions, schedules of ranks and failures",
        why="tests write with one rank, or two ranks and one distribution",
        files=[S + "file_writer.py", S + "metadata_extractor.py"],
        mechanism=mech(("indices of the local part", S + "file_writer.py"),
                       ("collective opening, creation, removal", S + "file_writer.py")),
        observe=["content of the file after each call", "open files, mismatched collectives"],
    ),
    "P18": dict(
        statement=(
            "A time step, its tangent and its adjoint depend on the discretisation state "
            "(or perturbation), ODE and step size they are given and on nothing else: "
            "several trajectories may be stepped, retried from stored states with another "
            "step size, and differentiated at any of their earlier steps, in any order, "
            "through one scheme object and one discretised ODE (an OpenMDAO stage problem "
            "or any other implementation of the interface), also after user code failed "
            "in the middle of a step. Each step gives the Runge-Kutta step with its error "
            "estimate, each derivative that of the step it is asked for, states copied by "
            "set, to_dict/from_dict or deepcopy are equal and independent, no operation "
            "changes a state it was not given, and the state norm is the norm of the "
            "quantities that are not excluded."
        ),
        over=["histories", "schedules", "inputs", "fault_sequences"],
        text=(
            "all ODEs and stage-ordered tableaux, any number of trajectories and orders of "
            "operations on them, failures between any two stages, all norm orders"
        ),
        why=(
            "tests run one step or one sequence at a time on fresh objects, and "
            "differentiate what was computed last"
        ),
        files=[RK, RKSTATE, OMODE, S + "discretized_ode/discretized_ode.py"],
        mechanism=mech(
            ("stage loops, accumulation, error estimate", RK),
            ("copies of states", RKSTATE),
            ("linearization points and exchange with the stage problem", OMODE)),
        observe=["arrays of all states after each operation", "perturbations returned"],
    ),
    "P19": dict(
        statement=(
            "What an integrator prints about its progress is true. Unless the user "
            "configures other callbacks, each run, tangent and adjoint announces the "
            "beginning and the end of each of its steps, in the order in which they are "
            "made, with the right number and under the name of the function, and the time "
            "reported for a step is the time that passed between its beginning and its end "
            "- also if primal steps are recomputed within an adjoint, if an earlier "
            "operation ended in the middle of a step, after repeated setups, and with "
            "several integrators. Steps that did not end are not reported as finished. On "
            "several ranks, rank 0 alone reports. If printing fails, the caller is told, "
            "and later operations are not affected."
        ),
        over=["histories", "schedules", "fault_sequences"],
        text="all histories, durations of user code, failing operations and failing output",
        why="tests compare the output of one successful run and cannot control the clock",
        files=[CB, RKI],
        mechanism=mech(("logging and time measurement", CB),
                       ("default callbacks and calls around every step", RKI)),
        observe=["lines on standard output, and when they appear"],
    ),
    "P20": dict(
        statement=(
            "Whatever experiments ran or failed before, executing an experiment of a shipped "
            "problem (rkopenmdao.utils.problems: adaptive, homogeneous with a step size, or "
            "homogeneous with the average step size) writes the initial values and all its "
            "steps to its file, and nothing else: experiments that differ in problem folder, "
            "name of the scheme, mode or step size have different files, and files of other experiments "
            "stay as they are. Missing directories are created, also if somebody else "
            "creates them at the same moment, and relative file names work. A failure "
            "(full disk, interrupt) surfaces and leaves a prefix of the steps. file_exists "
            "and compute_tolerance say what the files on disk say, and reading a file back "
            "gives its values and the distance to the analytical solution for the initial "
            "values of all quantities."
        ),
        over=["histories", "fault_sequences"],
        text="all sequences of experiments with all step sizes and storage faults",
        why="no test executes an experiment twice, in an empty or shared directory, with "
            "neighbouring step sizes or on a failing disk",
        files=[S + "utils/problems.py", FW],
        mechanism=mech(("file names, directories, execution", S + "utils/problems.py"),
                       ("writing and reading", FW)),
        observe=["files below the problem's folder"],
    ),
}

NOT_APPLICABLE = {
    "P30": dict(
        title="Shipped tableaux satisfy the order conditions they claim",
        statement=(
            "Every Butcher tableau shipped with the package satisfies the order conditions "
            "of the order it claims, for the main and the embedded weights."
        ),
        over=["programs"], text="all shipped tableaux",
        why="tests check a selection of conditions",
        files=[S + "butcher_tableaux.py", S + "butcher_tableau.py"],
        mechanism=mech(("coefficients", S + "butcher_tableaux.py")),
        reason=(
            "pure constants: no schedule, clock, I/O, fault or history; a deterministic "
            "simulation has nothing to decide. (The simulator's oracle uses its own frozen "
            "coefficients, so a changed coefficient is noticed by P01 anyway.)"
        ),
    ),
    "P31": dict(
        title="Inconsistent tags and shapes are rejected at setup",
        statement=(
            "A stage problem whose tags contradict each other (missing stage output, "
            "differing shapes, unknown quantity names, wrongly distributed variables) is "
            "rejected at setup with an error that names the variable."
        ),
        over=["programs"], text="all stage problems",
        why="only some of the contradictions are sampled",
        files=[META],
        mechanism=mech(("validation of metadata", META)),
        reason=(
            "a pure function of the tags of the problem, evaluated once at setup: no "
            "nondeterminism or fault it could depend on; generating inputs alone would not "
            "be simulation"
        ),
    ),
    "P32": dict(
        title="Textual output of controllers, tableaux and errors",
        statement=(
            "String representations of controllers, tableaux, checkpointers and errors name "
            "the object and its parameters."
        ),
        over=["inputs"], text="all objects",
        why="format strings are sampled only",
        files=[EC, S + "butcher_tableau.py", S + "errors.py"],
        mechanism=mech(("string conversions", EC)),
        reason="pure formatting: nothing a scheduler or fault injector could act on",
    ),
}

LEVEL_NOTE = (
    "Seeded search over generated histories, schedules and faults; evidence, not proof. "
    "Trusts numpy, OpenMDAO, pyrevolve, h5py, the generated user components and the small "
    "reference model; floating point comparisons use stated tolerances."
)
TECHNIQUE = {
    "default": "deterministic simulation with fault injection, reference model as oracle",
}


def main():
    lines = []
    for pid, p in {**PROPS, **NOT_APPLICABLE}.items():
        title = p.get("title") or REGISTRY[pid]["title"]
        assert len(title) <= 80, (pid, len(title))
        lines.append(json.dumps({
            "id": pid, "title": title, "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }))
    (VERIF / "properties.jsonl").write_text("\n".join(lines) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check --smoke",
        "hooks": {
            "guard": "none",
            "enable": "no hooks in /repo: all seams are in user code, in third party "
                      "modules the simulator patches in its own processes, or existing "
                      "interfaces",
            "source_commits": [],
        },
        "checks": [
            {
                "property": pid,
                "quick_cmd": f"./check {pid} --tier quick",
                "thorough_cmd": f"./check {pid} --tier thorough",
                "technique": p.get("technique", TECHNIQUE["default"]),
                "level": "exploration",
                "level_note": p.get("level_note", LEVEL_NOTE),
            }
            for pid, p in PROPS.items() if pid in REGISTRY
        ],
        "not_applicable": [
            {"property": pid, "reason": p["reason"]} for pid, p in NOT_APPLICABLE.items()
        ],
        "notes": "See DESIGN.md. Replay: ./check <id> --replay <file>.",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    missing = set(REGISTRY) ^ set(PROPS)
    if missing:
        print("not in step:", sorted(missing))


if __name__ == "__main__":
    main()
