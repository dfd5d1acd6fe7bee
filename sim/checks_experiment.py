"""P20: experiments with the shipped problems (rkopenmdao.utils.problems).

Several experiments are run one after another in one directory tree, fail half way (full
disk, interrupts at any line, directories that somebody else creates at the very same
moment), and are repeated.  After every operation the whole tree is compared with what the
reference says each file must contain."""

from __future__ import annotations

import contextlib
import copy
import dataclasses
import errno
import os
import pathlib

import numpy as np

from rkopenmdao.file_writer import read_hdf5_file
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps
from rkopenmdao.utils import problems as shipped

from .checks import Check
from .checks_hdf5 import FileModel, _Seam, check_content, read_raw
from .core import CTX, HarnessError, StepBudgetExceeded, Violation
from .history import Scratch, async_fault
from .world1 import EXPECTED_ERRORS, Expect, make_controllers, quiet
from . import ref

TABLEAUX = [
    "embedded_second_order_two_stage_sdirk", "embedded_second_order_three_stage_esdirk",
    "embedded_third_order_three_stage_sdirk1", "embedded_third_order_four_stage_esdirk",
    "embedded_fourth_order_four_stage_sdirk", "embedded_fourth_order_five_stage_esdirk",
]
STEP_SIZES = [1e-3, 2e-3, 4e-3, 5e-3, 1e-2, 2e-2, 4e-2, 1.5e-3, 1.2e-2, 1.25e-2, 2.5e-2]


class Disk:
    """Creation of directories, with faults."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.made = 0

    @contextlib.contextmanager
    def installed(self):
        orig = os.mkdir

        def mkdir(path, mode=0o777, **kw):
            where = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
            if not where.startswith(self.root) or "_out" in where:
                return orig(path, mode, **kw)
            action = CTX.hit("mkdir")
            if action == "race":
                orig(path, mode, **kw)  # by another process
            elif action in ("enospc", "eio"):
                raise OSError(getattr(errno, action.upper()), "injected: mkdir")
            elif action is not None:
                raise HarnessError(action)
            self.made += 1
            return orig(path, mode, **kw)

        os.mkdir = mkdir
        try:
            yield
        finally:
            os.mkdir = orig


def spec_of(data):
    if data["problem"] == "kaps":
        return {"quantities": [{"name": n, "shape": [1], "has_input": True}
                               for n in ("y_1", "y_2")],
                "indep": [], "use_time": False, "kind": "nonlinear", "coef_seed": 0,
                "layout": "kaps_group", "epsilon": data["stiffness"]}
    return {"quantities": [{"name": "x", "shape": [1], "has_input": True}], "indep": [],
            "use_time": True, "kind": "nonlinear", "coef_seed": 0, "layout": "prothero",
            "lambda": data["stiffness"]}


def initial(data):
    u = [1.0, 1.0] if data["problem"] == "kaps" else [float(np.sin(np.pi / 4))]
    return {"u": u, "p": [], "t": 0.0}


class Experiments(Check):
    def generate(self, rng):
        count = rng.choice([1, 1, 2])
        data = []
        for i in range(count):
            problem = rng.choice(["prothero", "prothero", "kaps"])
            data.append({
                "problem": problem,
                "stiffness": rng.choice([1.0, 0.5, 3.0] if problem == "kaps" else
                                        [-100.0, -10.0, -1.0]),
                "folder": rng.choice(["data", "deep/er/data", f"data{i}", "plain"]),
                "sizes": rng.sample(STEP_SIZES, rng.choice([1, 2, 2, 3])),
            })
        if count == 2 and data[0]["folder"] == data[1]["folder"]:
            data[1]["folder"] += "_too"
        tableaux = rng.sample(TABLEAUX, rng.choice([1, 1, 2]))
        ops, last = [], None
        for _ in range(rng.randint(3, 9)):
            i = rng.randrange(count)
            kind = rng.pick_weighted({"execute": 6, "tolerance": 2, "read": 1})
            op = {"op": kind, "i": i, "tableau": rng.choice(tableaux)}
            if kind == "tolerance" and rng.chance(0.5):
                # all of the study, first
                for size in data[i]["sizes"]:
                    ops.append({"op": "execute", "i": i, "tableau": op["tableau"],
                                "type": size, "steps": rng.randint(1, 12), "tol": 1e-5,
                                "name": None})
            if kind == "execute":
                op["type"] = rng.choice(["adaptive", "avg_homogeneous",
                                         *data[i]["sizes"], *data[i]["sizes"]])
                op["steps"] = rng.randint(1, 12)
                op["h"] = rng.choice([0.01, 0.02, 0.05])
                op["tol"] = rng.choice([1e-4, 1e-5, 1e-6])
                op["name"] = rng.choice([None, None, None, None, "out.h5", "sub/out.h5",
                                         "sub/dir/other.h5"])
                if last is not None and rng.chance(0.25):
                    op = {k: v for k, v in last.items() if k != "faults"}
                if rng.chance(0.3):
                    op["faults"] = [rng.choice([
                        {"kind": "mkdir", "nth": rng.choice([1, 1, 2, 3]),
                         "action": rng.choice(["race", "race", "race", "enospc", "eio"])},
                        {"kind": rng.choice(["h5_open", "h5_group", "h5_dataset",
                                             "h5_write"]),
                         "nth": rng.choice([1, 2, 3, 5, 8, 13]),
                         "action": rng.choice(["enospc", "eio", "interrupt"])},
                        {"kind": "async", "nth": int(10 ** rng.uniform(0.0, 4.2)),
                         "action": "interrupt"},
                    ])]
                last = op
            ops.append(op)
        return {"problems": data, "ops": ops, "tick": 0}

    def simplify(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                new = copy.deepcopy(scn)
                del new["ops"][i]
                yield new
        for i, op in enumerate(scn["ops"]):
            if op.get("faults"):
                new = copy.deepcopy(scn)
                del new["ops"][i]["faults"]
                yield new
            if op.get("steps", 1) > 1 and op.get("type") != "adaptive":
                new = copy.deepcopy(scn)
                new["ops"][i]["steps"] = 1
                yield new

    # -- execution -----------------------------------------------------------------------
    def execute(self, scn):
        with Scratch() as scratch:
            self.root = scratch
            self.models = {}  # path -> FileModel
            self.owner = {}  # path -> experiment
            self.problems = []
            for data in scn["problems"]:
                build = (shipped.kaps_problem if data["problem"] == "kaps" else
                         shipped.prothero_robinson_problem)
                self.problems.append(dataclasses.replace(
                    build(data["stiffness"]), step_sizes=np.array(data["sizes"]),
                    folder_path=pathlib.Path(scratch) / data["folder"]))
            for index, op in enumerate(scn["ops"]):
                where = f"op {index} ({op['op']})"
                getattr(self, "do_" + op["op"])(where, index, scn["problems"][op["i"]],
                                        self.problems[op["i"]], op)
                self.check_tree(where)

    def config(self, op, problem):
        """(configuration for the reference, configuration for the library)"""
        ctl = {"controllers": ["pseudo"], "tol": op["tol"], "lb": 0, "ub": None,
               "safety": 0.95, "max_iter": 5, "measurer": "simple"}
        if op["type"] == "adaptive":
            ctl["controllers"] = ["integral"]
            term, h = ["time", min(problem.time_objective, 0.15)], 0.05
        elif op["type"] == "avg_homogeneous":
            term, h = ["steps", op["steps"]], op["h"]
        else:
            term, h = ["steps", op["steps"]], op["type"]
        cfg = {"adaptive": True, "term": term, "h": h, "tableau": op["tableau"],
               "ckpt": ["none"], "ctl": ctl}
        made = make_controllers(cfg)
        kind, value = term
        config = shipped.ProblemConfig(
            IntegrationConfig(True, (PredefinedNumberOfSteps if kind == "steps" else
                                     PredefinedFinalTime)(value), h),
            made["error_controller"], made["error_measurer"],
            options=made["error_controller_options"])
        return cfg, config

    def location(self, where, problem, i, op):
        name = ref.make_tableau(op["tableau"])[0].name
        path = problem.get_file_path(name, op["type"])[1]
        path = pathlib.Path(path)
        if not str(path).startswith(str(problem.folder_path) + os.sep):
            raise Violation("experiment-files", f"{where}: {path} is not within "
                            f"{problem.folder_path}")
        key = (i, op["tableau"], op["type"])
        if self.owner.setdefault(str(path), key) != key:
            raise Violation("experiment-files", f"{where}: experiments {key} and "
                            f"{self.owner[str(path)]} share the file {path}")
        return path

    def execute_op(self, problem, op, config, fault):
        tableau = ref.make_tableau(op["tableau"])[0]
        with quiet(), Disk(self.root).installed(), async_fault(fault):
            problem.execute(tableau, config)

    def execute_error(self, problem, op, config):
        faults = op.get("faults", ())
        CTX.begin_op([f for f in faults if f["kind"] != "async"], 200_000)
        CTX.async_fired = False
        _Seam.active = True
        error = None
        try:
            self.execute_op(problem, op, config, faults)
        except StepBudgetExceeded:
            raise
        except EXPECTED_ERRORS as exc:  # pylint: disable=broad-except
            error = exc
        finally:
            _Seam.active = False
            left = CTX.end_op()
        fired = sum(f["kind"] != "async" for f in faults) - len(left) + int(
            CTX.async_fired)
        return error, fired

    def do_execute(self, where, index, data, problem, op):
        where += f" {op['type']} with {op['tableau']}"
        cfg, config = self.config(op, problem)
        expect = Expect(spec_of(data), cfg)
        pt = initial(data)
        if not expect.feasible(pt):
            CTX.probe("infeasible_point")
            return
        path = self.location(where, problem, op["i"], op)
        if op["name"]:
            path = pathlib.Path(op["name"])
        config.write_file = path
        path = pathlib.Path(self.root) / path
        before = read_raw(path) if path.exists() else None
        error, fired = self.execute_error(problem, op, config)
        CTX.note(f"{index} {op['type']} fired={fired} error={type(error).__name__}")
        CTX.mark(data["problem"], op["type"], op["tableau"], fired, error is None,
                 op["name"])
        CTX.reach(data["problem"], isinstance(op["type"], str) and op["type"],
                  op["name"] is None, fired, error is None, before is not None)
        race = any(f["action"] == "race" for f in op.get("faults", ()))
        if error is not None and (not fired or race):
            raise Violation("experiment", f"{where} failed with {type(error).__name__}: "
                            f"{str(error)[:300]}"
                            + (" (somebody else created the directory, too)" if race
                               else ""))
        if error is None and fired and not race:
            raise Violation("swallowed-failure", f"{where} went through although "
                            f"{op['faults']} happened")
        model = FileModel()
        steps = set(range(len(expect.steps(pt)) + 1))
        CTX.steps += len(steps) - 1
        CTX.sim_time += sum(expect.steps(pt))
        if error is None:
            model.set(expect, pt, steps, set(), 1)
            self.models[str(path)] = model
            CTX.probe(f"executed_{data['problem']}")
            if op["name"] is None and not problem.file_exists(
                ref.make_tableau(op["tableau"])[0].name, op["type"]
            ):
                raise Violation("experiment-files", f"{where}: file_exists() says there is "
                                "no file")
            return
        CTX.probe("experiment_failed")
        now = read_raw(path) if path.exists() else None
        if now is None or (before is not None and same(now, before)):
            if now is None:
                if before is not None:
                    raise Violation("experiment-files", f"{where} failed and destroyed "
                                    "the file")
                self.models.pop(str(path), None)
                if path.exists():
                    raise Violation("unreadable-file", f"{where} failed and left an "
                                    "unreadable file")
            return
        have = {int(k) for k in now}
        if have != set(range(len(have))):
            raise Violation("missing-steps", f"{where} failed and left steps "
                            f"{sorted(have)}")
        model.set(expect, pt, have, set(), 1)
        self.models[str(path)] = model

    def do_tolerance(self, where, index, data, problem, op):
        name = ref.make_tableau(op["tableau"])[0].name
        errors = []
        for size in data["sizes"]:
            path = self.location(where, problem, op["i"], dict(op, type=size))
            if problem.file_exists(name, size) != path.is_file():
                raise Violation("experiment-files", f"{where}: file_exists() is wrong "
                                f"about {path}")
            content = read_raw(path) if path.is_file() else None
            if content is not None and not content:
                CTX.probe("empty_file")
                return
            errors.append(None if content is None else
                          content[str(max(int(k) for k in content))]["error_measure"][0])
        want = 1e-6 if None in errors else float(np.mean(errors))
        with quiet():
            got = float(problem.compute_tolerance(name))
        if abs(got - want) > 1e-12 * abs(want):
            raise Violation("tolerance", f"{where}: tolerance {got!r}, the last local "
                            f"errors are {errors}")
        CTX.judged += 1
        CTX.note(f"{index} tolerance {got.hex()}")
        CTX.mark("tolerance", None in errors)
        CTX.probe("tolerance_default" if None in errors else "tolerance")

    def do_read(self, where, index, data, problem, op):
        """Errors with regard to the analytical solution."""
        names = problem.quantities
        for path, model in sorted(self.models.items()):
            if 0 not in model.must or model.run[0].spec != spec_of(data):
                continue
            content = read_raw(path)
            time, err, res = read_hdf5_file(path, names, problem.solution)
            start = [content["0"][n] for n in names]
            for key, values in content.items():
                k, t = int(key), values["time"][0]
                want = problem.solution(t, start if len(names) > 1 else start[0],
                                        content["0"]["time"][0])
                for n, name in enumerate(names):
                    diff = np.abs((want[n] if len(names) > 1 else want) - values[name])
                    if time[k] != t or not np.array_equal(res[name][k], values[name]) or (
                        not np.allclose(err[name][k], diff, rtol=1e-12, atol=1e-14)
                    ):
                        raise Violation("reader", f"{where}: {name} of step {k}")
            CTX.judged += 1
            CTX.probe("read")

    def check_tree(self, where):
        found = set()
        for folder, _, files in os.walk(self.root):
            for file in files:
                if file.endswith(".h5"):
                    found.add(os.path.join(folder, file))
        if found != set(self.models):
            raise Violation("experiment-files", f"{where}: files {sorted(found)}, "
                            f"expected {sorted(self.models)}")
        for path, model in sorted(self.models.items()):
            if model.must:
                check_content(where, path, model)
            elif read_raw(path):
                raise Violation("unexpected-steps", f"{where}: {path} is not empty")


def same(a, b):
    return a.keys() == b.keys() and all(
        a[k].keys() == b[k].keys() and all(np.array_equal(a[k][n], b[k][n]) for n in a[k])
        for k in a)


CHECKS = {"P20": Experiments}
