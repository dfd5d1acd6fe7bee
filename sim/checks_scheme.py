"""P18: time discretisation schemes, discretised ODEs and discretisation states.

Several clients step their own trajectories, retry steps from stored states with other
step sizes, and differentiate steps taken long ago, all through the same scheme and the
same discretised ODE.  A seeded scheduler decides whose turn it is; operations on another
ODE also run in the middle of a step (between two stages)."""

from __future__ import annotations

import copy

import numpy as np

from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE,
    DiscretizedODEInputState,
    DiscretizedODEResultState,
)
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization,
    StageOrderedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationFinalizationValues,
    TimeDiscretizationStartingValues,
)

from . import ref
from .checks import Check
from .core import CTX, Violation
from .gen import random_setup
from .odes import build_stage_problem, make_math, raise_fault
from .world1 import EXPECTED_ERRORS, close, direction, fmt, quiet

FIELDS = (
    "start_state", "stage_states", "stage_updates", "final_state", "independent_inputs",
    "stage_independent_outputs", "final_independent_outputs", "start_time", "stage_times",
    "final_time", "step_size", "linearization_points", "embedded_state", "error_estimate",
)


class PlainODE(DiscretizedODE):
    """A user's own implementation of the interface, without OpenMDAO.

    It has independent outputs (a linear function of the stage value) and reports stage
    states."""

    def __init__(self, math, name, order, exclude):
        self.math, self.name, self.order = math, name, order
        keep = np.ones(math.n, bool)
        for i, quantity in enumerate(math.names):
            if quantity in exclude:
                keep[math.offsets[i] : math.offsets[i + 1]] = False
        self.keep = keep
        self.C = np.arange(1.0, 2 * math.n + 1).reshape(2, math.n) / (2 * math.n)

    def _point(self, kind):
        action = CTX.hit(kind, self.name)
        if action == "nan":
            return True
        if action is not None:
            raise_fault(action)
        return False

    def compute_update(self, ode_input, step_size, stage_factor):
        bad = self._point("nl")
        math = self.math
        k = math.solve_stage(ode_input.step_input, ode_input.stage_input,
                             ode_input.independent_input, ode_input.time, step_size,
                             stage_factor)
        us = ode_input.step_input + step_size * (ode_input.stage_input + stage_factor * k)
        if bad:
            k = k * np.nan
        lin = np.concatenate([us, ode_input.independent_input, [ode_input.time]])
        return DiscretizedODEResultState(
            k, us, self.C @ us, lin)

    def _jac(self, lin, h, a):
        math = self.math
        us, p, t = lin[: math.n], lin[math.n : math.n + math.m], lin[-1]
        usm = us * math.mask if hasattr(math, "mask") else us
        fu = math.fu(us, p, t)
        return np.eye(math.n) - h * a * fu, fu, math.fp(usm, p, t), math.ft(usm, p, t)

    def compute_update_derivative(self, ode_input_perturbation, step_size, stage_factor):
        bad = self._point("lin")
        x, h, a = ode_input_perturbation, step_size, stage_factor
        M, fu, fp, ft = self._jac(x.linearization_point, h, a)
        dk = np.linalg.solve(M, fu @ (x.step_input + h * x.stage_input)
                             + fp @ x.independent_input + ft * x.time)
        dus = x.step_input + h * (x.stage_input + a * dk)
        if bad:
            dk = dk * np.nan
        return DiscretizedODEResultState(
            dk, dus, self.C @ dus)

    def compute_update_adjoint_derivative(self, ode_result_perturbation, step_size,
                                          stage_factor):
        bad = self._point("lin")
        y, h, a = ode_result_perturbation, step_size, stage_factor
        M, fu, fp, ft = self._jac(y.linearization_point, h, a)
        bus = y.stage_state + self.C.T @ y.independent_output
        lam = np.linalg.solve(M.T, y.stage_update + h * a * bus)
        if bad:
            lam = lam * np.nan
        du = fu.T @ lam + bus
        return DiscretizedODEInputState(
            du, h * du, fp.T @ lam,
            float(ft @ lam))

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state[self.keep], self.order))

    def get_state_size(self):
        return self.math.n

    def get_independent_input_size(self):
        return self.math.m

    def get_independent_output_size(self):
        return 2

    def get_linearization_point_size(self):
        return self.math.n + self.math.m + 1


class System:
    """One discretised ODE with the scheme used for it."""

    def __init__(self, index, data, schemes):
        self.name, self.data = f"s{index}", data
        self.spec = data["spec"]
        self.math = make_math(self.spec)
        tab_obj, self.tab = ref.make_tableau(data["tableau"])
        key = repr(data["tableau"])
        if key not in schemes:
            cls = (StageOrderedEmbeddedRungeKuttaDiscretization if self.tab.embedded
                   else StageOrderedRungeKuttaDiscretization)
            schemes[key] = cls(tab_obj)
        self.scheme = schemes[key]
        order = data["order"]
        self.order = float(order) if isinstance(order, str) else order
        if data["kind"] == "plain":
            self.ode = PlainODE(self.math, self.name, self.order, data["exclude"])
            self.index_u, self.index_p = np.arange(self.math.n), np.arange(self.math.m)
        else:
            prob = build_stage_problem(self.spec, self.math, self.name)
            prob.setup()
            prob.final_setup()
            self.ode = OpenMDAOODE(prob, list(self.math.names), list(self.math.p_names),
                                   list(data["exclude"]), self.order)
            meta = self.ode.time_integration_metadata
            self.index_u = self._where(meta.time_integration_quantity_list,
                                       self.math.names)
            self.index_p = self._where(meta.time_independent_input_quantity_list,
                                       self.math.p_names)
        self.tol = {"coupled": 1e-7, "kaps_group": 2e-6, "kaps_parts": 1e-7}.get(
            self.spec["layout"], 1e-9) if data["kind"] == "om" else 1e-9
        self.pool = {"step": None, "fwd": None}

    @staticmethod
    def _where(quantities, names):
        where = {q.name: q.array_metadata for q in quantities}
        parts = [np.arange(where[n].start_index, where[n].end_index) for n in names]
        return np.concatenate(parts) if parts else np.arange(0)

    # arrays of the library <-> order of the options
    def u(self, array):
        return np.asarray(array)[..., self.index_u]

    def p(self, array):
        return np.asarray(array)[self.index_p]

    def lib_u(self, values):
        out = np.zeros(self.math.n)
        out[self.index_u] = values
        return out

    def lib_p(self, values):
        out = np.zeros(self.math.m)
        out[self.index_p] = values
        return out

    def empty(self):
        return self.scheme.create_empty_discretization_state(self.ode)


def freeze(state):
    """Copy of all arrays of a state."""
    return {f: np.array(getattr(state, f), copy=True) for f in FIELDS if hasattr(state, f)}


class World:
    def __init__(self, scn):
        self.scn = scn
        shared = {} if scn["share_scheme"] else None
        self.systems = [System(i, d, shared if shared is not None else {})
                        for i, d in enumerate(scn["odes"])]
        self.clients = []
        for data in scn["clients"]:
            system = self.systems[data["ode"]]
            pt = data["pt"]
            with quiet():
                start = system.scheme.time_discretization_starting_scheme(
                    system.ode, TimeDiscretizationStartingValues(
                        pt["t"], system.lib_u(pt["u"]), system.lib_p(pt["p"])), 0.0)
            # [state, frozen copy, step size that led here]
            self.clients.append({"s": system, "pt": pt,
                                 "states": [[start, freeze(start), None]]})
        self.where = ""

    # -- invariants --------------------------------------------------------------------
    def judge(self, what, got, want, tol):
        CTX.judged += 1
        if not close(got, want, tol):
            raise Violation("wrong-" + what.split(" ")[0],
                            f"{self.where}: {what} is {fmt(got)}, expected {fmt(want)}")

    def unchanged(self):
        """No operation changes states it was not asked to work on."""
        for c, client in enumerate(self.clients):
            for k, (state, frozen, _) in enumerate(client["states"]):
                for name, val in frozen.items():
                    if not np.array_equal(getattr(state, name), val, equal_nan=True):
                        raise Violation(
                            "state-changed", f"{self.where}: {name} of the state after "
                            f"step {k} of client {c} was {fmt(val)}, is now "
                            f"{fmt(getattr(state, name))}")
        CTX.judged += 1

    # -- operations --------------------------------------------------------------------
    def run(self, index, op):
        self.where = f"op {index} ({op['op']} of client {op['c']})"
        nested = op.get("nested")
        saved_where = self.where
        violation = []
        if nested is not None:
            def inner():
                saved = CTX.save_op()
                CTX.begin_op((), 100_000)
                self.where = f"op {index}, nested {nested['op']} of client {nested['c']}"
                try:
                    self.perform(nested)
                except Violation as exc:
                    violation.append(exc)  # (OpenMDAO may replace exceptions)
                finally:
                    CTX.end_op()
                    CTX.restore_op(saved)
                    self.where = saved_where
                CTX.probe("nested")
        CTX.begin_op(op.get("faults", ()), 100_000)
        if nested is not None:
            CTX.at_call = (nested["at"], inner)
        error = None
        try:
            self.perform(op)
        except EXPECTED_ERRORS as exc:
            if isinstance(exc, Violation):
                raise
            error = exc
        CTX.at_call = None
        if violation:
            raise violation[0]
        left = CTX.end_op()
        fired = len(left) < len(op.get("faults", ()))
        if error is not None and not fired:
            raise Violation("unexpected-error", f"{self.where} raised "
                            f"{type(error).__name__}: {str(error)[:300]}")
        CTX.mark(op["op"], op["c"], op.get("how"), op.get("k"), type(error).__name__)
        CTX.reach(self.clients[op["c"]]["s"].data["kind"], op["op"], op.get("how"), fired,
                  error is not None, len(self.clients[op["c"]]["states"]) > 1)
        CTX.note(f"{index} {op['op']} {op['c']} {type(error).__name__}")
        self.unchanged()

    def perform(self, op):
        with quiet():
            getattr(self, op["op"])(op, self.clients[op["c"]])

    def pick(self, op, client, first=0):
        states = client["states"]
        return first + op["k"] % (len(states) - first) if len(states) > first else None

    def faulty(self):
        return any(f.get("_fired") for f in CTX.active_faults)

    def copied(self, system, state, how):
        if how == "deepcopy":
            return copy.deepcopy(state)
        if how == "dict":
            return type(state).from_dict(state.to_dict())
        if how == "dict_copy":
            return type(state).from_dict(copy.deepcopy(state.to_dict()))
        if how == "dirty" and system.pool["step"] is not None:
            # whatever an earlier (maybe failed) step left in there
            new = system.pool["step"]
            system.pool["step"] = None
        else:
            new = system.empty()
        new.set(state)
        return new

    def step(self, op, client):
        """A step from the last or an earlier state (which cuts the trajectory)."""
        system, states = client["s"], client["states"]
        math, tab, h = system.math, system.tab, op["h"]
        k = len(states) - 1
        if op.get("retry") and k:
            k = self.pick(op, client)
        base, frozen, _ = states[k]
        work = self.copied(system, base, op["how"])
        for name, val in frozen.items():
            CTX.judged += 1
            if not np.array_equal(getattr(work, name), val, equal_nan=True):
                raise Violation("wrong-copy", f"{self.where}: {name} of the state copied "
                                f"by {op['how']} is {fmt(getattr(work, name))}, "
                                f"expected {fmt(val)}")
        spare = work
        try:
            new = system.scheme.compute_step(system.ode, work, h)
        finally:
            system.pool["step"] = spare
        if self.faulty():  # (not a number)
            return
        if new is not work:
            raise Violation("not-in-place", f"{self.where}: other state returned")
        system.pool["step"] = None
        CTX.steps += 1
        CTX.sim_time += abs(h)
        u, p, t = system.u(frozen["final_state"]), system.p(frozen["independent_inputs"]), (
            float(frozen["final_time"][0]))
        u1, ks, ts, err = ref.step(math, tab, u, p, t, h)
        if not np.all(np.isfinite(u1)) or np.max(np.abs(u1), initial=0.0) > 1e3:
            CTX.probe("grown")
            return
        tol = system.tol
        noise = h * np.max(np.abs(ks), initial=0.0)
        scale = 1.0 + noise / (1.0 + np.max(np.abs(u1), initial=0.0))
        self.judge("final_state", system.u(new.final_state), u1, tol * scale)
        self.judge("final_time", new.final_time, [t + h], 1e-13)
        self.judge("start_state", system.u(new.start_state), u, 0.0)
        self.judge("start_time", new.start_time, [t], 0.0)
        self.judge("stage_updates", system.u(new.stage_updates), ks, 10 * tol * scale)
        self.judge("stage_times", new.stage_times, ts, 1e-13)
        self.judge("step_size", new.step_size, [h], 0.0)
        self.judge("independent_inputs", system.p(new.independent_inputs), p, 0.0)
        if err is not None:
            self.judge("embedded_state", system.u(new.embedded_state), u1 - err,
                       tol * scale)
            self.judge("error_estimate", system.u(new.error_estimate), err, tol * scale)
        if isinstance(system.ode, PlainODE):
            us = np.array([u + h * (tab.A[i, : i + 1] @ ks[: i + 1])
                           for i in range(tab.s)])
            self.judge("stage_states", new.stage_states, us, tol * scale)
            self.judge("stage_independent_outputs", new.stage_independent_outputs,
                       us @ system.ode.C.T, tol * scale)
        del states[k + 1 :]
        states.append([new, freeze(new), h])

    def perturbation(self, system, key, reuse):
        pert = system.pool[key] if reuse else None
        if pert is None:
            pert = system.empty()
        system.pool[key] = None
        return pert

    def point(self, client, k):
        """Where step k started: (u, p, t, h)."""
        frozen = client["states"][k][1]
        system = client["s"]
        return (system.u(frozen["start_state"]), system.p(frozen["independent_inputs"]),
                float(frozen["start_time"][0]), client["states"][k][2])

    def jac_tol(self, system, jac):
        return system.tol * 10 * (1.0 + np.max(np.abs(jac), initial=0.0))

    def fwd(self, op, client):
        k = self.pick(op, client, 1)
        if k is None:
            return
        system = client["s"]
        math = system.math
        u, p, t, h = self.point(client, k)
        seed = direction(op["dir"], math.n + math.m + 1)
        pert = self.perturbation(system, "fwd", op.get("reuse"))
        pert.final_state[:] = system.lib_u(seed[: math.n])
        pert.independent_inputs[:] = system.lib_p(seed[math.n : math.n + math.m])
        pert.final_time[0] = seed[-1]
        system.pool["fwd"] = pert
        out = system.scheme.compute_step_derivative(
            system.ode, client["states"][k][0], pert, h)
        if self.faulty():
            return
        jac = ref.jacobian(math, system.tab, u, p, t, [h])
        tol = self.jac_tol(system, jac)
        want = jac @ seed
        self.judge("tangent", system.u(out.final_state), want[: math.n], tol)
        self.judge("tangent of the time", out.final_time, want[math.n :], tol)
        self.judge("tangent of the inputs", system.p(out.independent_inputs),
                   seed[math.n : math.n + math.m], 0.0)
        CTX.probe("tangents")

    def rev(self, op, client):
        k = self.pick(op, client, 1)
        if k is None:
            return
        system = client["s"]
        math = system.math
        u, p, t, h = self.point(client, k)
        seed = direction(op["dir"], math.n + math.m + 1)
        pert = system.empty()
        pert.final_state[:] = system.lib_u(seed[: math.n])
        pert.final_time[0] = seed[-1]
        if op.get("acc"):
            # what steps after this one left there
            pert.independent_inputs[:] = system.lib_p(seed[math.n : math.n + math.m])
        if op.get("reuse"):
            # (overwritten by the step; adjoints of the stage states are not)
            pert.stage_updates[:] = 3.0
            pert.start_state[:] = -2.0
            pert.start_time[:] = 7.0
            pert.stage_times[:] = 5.0
        before = system.p(pert.independent_inputs).copy()
        out = system.scheme.compute_step_adjoint_derivative(
            system.ode, client["states"][k][0], pert, h)
        if self.faulty():
            return
        jac = ref.jacobian(math, system.tab, u, p, t, [h])
        tol = self.jac_tol(system, jac)
        want = np.concatenate([seed[: math.n], seed[-1:]]) @ jac
        self.judge("adjoint", system.u(out.final_state), want[: math.n], tol)
        self.judge("adjoint of the inputs", system.p(out.independent_inputs),
                   before + want[math.n : -1], tol)
        self.judge("adjoint of the time", out.final_time, want[-1:], tol)
        CTX.probe("adjoints")

    def _whole(self, client):
        system, states = client["s"], client["states"]
        hs = [h for _, _, h in states[1:]]
        pt = client["pt"]
        jac = ref.jacobian(system.math, system.tab, pt["u"], np.array(pt["p"]), pt["t"], hs)
        return system, states, hs, jac, (
            self.jac_tol(system, jac) * (1 + len(hs)))

    def start_values(self, system, seed):
        math = system.math
        return TimeDiscretizationStartingValues(
            seed[-1], system.lib_u(seed[: math.n]),
            system.lib_p(seed[math.n : math.n + math.m]))

    def sweep_fwd(self, op, client):
        """Tangent of the whole trajectory of a client, through both end schemes."""
        system, states, hs, jac, tol = self._whole(client)
        math, scheme, ode = system.math, system.scheme, system.ode
        pt = client["pt"]
        seed = direction(op["dir"], math.n + math.m + 1)
        start = self.start_values(system, np.concatenate(
            [np.array(pt["u"], float), np.array(pt["p"], float), [pt["t"]]]))
        pert = scheme.time_discretization_starting_scheme_derivative(
            ode, start, self.start_values(system, seed), hs[0] if hs else 0.1)
        for (state, _, h) in states[1:]:
            pert = scheme.compute_step_derivative(ode, state, pert, h)
        out = scheme.time_discretization_finalization_scheme_derivative(
            ode, states[-1][0], pert, hs[-1] if hs else 0.1)
        if self.faulty():
            return
        if np.max(np.abs(jac)) > 1e4:
            return
        want = jac @ seed
        self.judge("tangent of a run", system.u(out.final_values), want[: math.n], tol)
        self.judge("tangent of the final time", out.final_time, want[math.n :], tol)
        CTX.probe("sweeps_fwd")

    def sweep_rev(self, op, client):
        system, states, hs, jac, tol = self._whole(client)
        math, scheme, ode = system.math, system.scheme, system.ode
        pt = client["pt"]
        seed = direction(op["dir"], math.n + 1)
        final = TimeDiscretizationFinalizationValues(
            seed[-1], system.lib_u(seed[: math.n]),
            np.zeros(ode.get_independent_output_size()))
        pert = scheme.time_discretization_finalization_scheme_adjoint_derivative(
            ode, states[-1][0], final, hs[-1] if hs else 0.1)
        for (state, _, h) in reversed(states[1:]):
            pert = scheme.compute_step_adjoint_derivative(ode, state, pert, h)
        start = self.start_values(system, np.concatenate(
            [np.array(pt["u"], float), np.array(pt["p"], float), [pt["t"]]]))
        out = scheme.time_discretization_starting_scheme_adjoint_derivative(
            ode, start, pert, hs[0] if hs else 0.1)
        if self.faulty():
            return
        if np.max(np.abs(jac)) > 1e4:
            return
        want = seed @ jac
        self.judge("adjoint of a run", system.u(out.initial_values), want[: math.n], tol)
        self.judge("adjoint of a run (inputs)", system.p(out.independent_inputs),
                   want[math.n : -1], tol)
        self.judge("adjoint of a run (time)", np.ravel(out.initial_time), want[-1:], tol)
        CTX.probe("sweeps_rev")

    def norm(self, op, client):
        """The norm of what is not excluded."""
        system = client["s"]
        math = system.math
        value = direction(op["dir"], math.n) * 10.0 ** op["exp"]
        if op["dir"] % 3 == 0:
            value[:: 2] = 0.0
        keep = np.concatenate([np.full(s, n not in system.data["exclude"])
                               for n, s in zip(math.names, math.sizes)])
        got = system.ode.compute_state_norm(DiscretizedODEResultState(
            np.zeros(math.n), system.lib_u(value), np.zeros(0)))
        want = np.linalg.norm(value[keep], system.order)
        CTX.judged += 1
        if not np.isclose(got, want, rtol=1e-12, atol=0.0):
            raise Violation("wrong-norm", f"{self.where}: norm of order {system.order} of "
                            f"{fmt(value)} without {system.data['exclude']} is {got!r}, "
                            f"expected {want!r}")
        CTX.probe("norms")


class Discretization(Check):
    """P18"""

    def generate(self, rng):
        odes = []
        for _ in range(rng.choice([1, 2, 2])):
            spec, cfg = random_setup(rng, adaptive=rng.chance(0.4))
            names = [q["name"] for q in spec["quantities"]]
            exclude = [n for n in names if rng.chance(0.25)]
            if len(exclude) == len(names):
                exclude.pop()
            kind = "om"
            if spec["layout"] in ("explicit", "implicit") and rng.chance(0.4):
                kind = "plain"
            odes.append({"spec": spec, "tableau": cfg["tableau"], "kind": kind,
                         "exclude": exclude,
                         "order": rng.choice([2.0, 2.0, 1.0, 3.0, 2.5, "inf", "-inf", 0.0])})
        if len(odes) > 1 and rng.chance(0.5):
            tableau = odes[0]["tableau"]
            if odes[1]["spec"]["layout"] != "update":
                odes[1]["tableau"] = tableau
        clients = []
        for _ in range(rng.randint(len(odes), 4)):
            i = len(clients) if len(clients) < len(odes) else rng.randrange(len(odes))
            math = make_math(odes[i]["spec"])
            low = 0.5 if odes[i]["spec"]["layout"].startswith("kaps") else -1.5
            clients.append({"ode": i, "pt": {
                "u": [round(rng.uniform(low, 1.5), 3) for _ in range(math.n)],
                "p": [round(rng.uniform(-1.5, 1.5), 3) for _ in range(math.m)],
                "t": rng.choice([0.0, 0.0, 0.5, -1.0, 10.0])}})
        scn = {"odes": odes, "clients": clients, "share_scheme": rng.chance(0.7),
               "tick": 0, "ops": []}
        for _ in range(rng.randint(6, 18)):
            op = self.random_op(rng, scn)
            others = [c for c, d in enumerate(clients)
                      if d["ode"] != clients[op["c"]]["ode"]]
            if others and op["op"] != "norm" and rng.chance(0.25):
                op["nested"] = dict(self.random_op(rng, scn, rng.choice(others)),
                                    at=rng.choice([1, 1, 2, 3, 4]))
            elif op["op"] != "norm" and rng.chance(0.15):
                op["faults"] = [{
                    "kind": "nl" if op["op"] == "step" else "lin",
                    "nth": rng.choice([1, 1, 2, 2, 3, 4]),
                    "action": rng.choice(["analysis_error", "exception", "nan",
                                          "interrupt"])}]
            scn["ops"].append(op)
        return scn

    def random_op(self, rng, scn, client=None):
        c = rng.randrange(len(scn["clients"])) if client is None else client
        kind = rng.pick_weighted({"step": 9, "fwd": 3, "rev": 3, "sweep_fwd": 2,
                                  "sweep_rev": 2, "norm": 1})
        op = {"op": kind, "c": c}
        shipped = scn["odes"][scn["clients"][c]["ode"]]["spec"]["layout"]
        if kind == "step":
            op["h"] = rng.choice([0.01, 0.05, 0.1, 0.1, 0.25, 0.07])
            if shipped.startswith("kaps"):
                op["h"] = min(op["h"], 0.1)
            op["how"] = rng.choice(["deepcopy", "set", "dict", "dict_copy", "dirty",
                                    "dirty"])
            if rng.chance(0.25):
                op.update(retry=True, k=rng.randrange(8))
            return op
        op["dir"] = rng.randrange(6)
        if kind in ("fwd", "rev"):
            op["k"] = rng.randrange(8)
            op["reuse"] = rng.chance(0.6)
            if kind == "rev":
                op["acc"] = rng.chance(0.5)
        if kind == "norm":
            op["exp"] = rng.choice([0, 0, -8, 5])
        return op

    def execute(self, scn):
        world = World(scn)
        CTX.mark([d["kind"] for d in scn["odes"]], len(scn["clients"]),
                 scn["share_scheme"])
        for index, op in enumerate(scn["ops"]):
            world.run(index, op)

    def simplify(self, scn):
        for i in reversed(range(len(scn["ops"]))):
            cand = copy.deepcopy(scn)
            del cand["ops"][i]
            if cand["ops"]:
                yield cand
        for i, op in enumerate(scn["ops"]):
            for key in ("nested", "faults"):
                if key in op:
                    cand = copy.deepcopy(scn)
                    del cand["ops"][i][key]
                    yield cand
            if op.get("how", "deepcopy") != "deepcopy":
                cand = copy.deepcopy(scn)
                cand["ops"][i]["how"] = "deepcopy"
                yield cand
            if op.get("reuse"):
                cand = copy.deepcopy(scn)
                cand["ops"][i]["reuse"] = False
                yield cand
        used = {op["c"] for op in scn["ops"]} | {
            op["nested"]["c"] for op in scn["ops"] if "nested" in op}
        for c in reversed(range(len(scn["clients"]))):
            if c not in used and len(scn["clients"]) > 1:
                cand = copy.deepcopy(scn)
                del cand["clients"][c]
                for op in cand["ops"]:
                    for o in (op, op.get("nested", {"c": -1})):
                        if o["c"] > c:
                            o["c"] -= 1
                yield cand
        for i, data in enumerate(scn["odes"]):
            for key, val in (("exclude", []), ("order", 2.0)):
                if data[key] != val:
                    cand = copy.deepcopy(scn)
                    cand["odes"][i][key] = val
                    yield cand
            for name in ("explicit_euler", "implicit_euler"):
                if data["tableau"] != name and data["spec"]["layout"] != "update":
                    cand = copy.deepcopy(scn)
                    cand["odes"][i]["tableau"] = name
                    yield cand


CHECKS = {"P18": Discretization}
